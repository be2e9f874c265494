// Executor for the flow of arguments and results through requirements, side effects and finalizers.
// One signature per translation unit (FLOW_SIG); see spec/Flow.tla for the tables of signatures and chains.
#pragma once

#include "mimic++/mimic++.hpp"

#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace fx
{
	using namespace mimicpp;

	inline int copies{};
	inline int moves{};

	struct T
	{
		int v{};

		explicit T(int x) : v{x} {}
		T(const T& o) : v{o.v} { ++copies; }
		T(T&& o) noexcept : v{o.v}
		{
			o.v = -999;
			++moves;
		}
		T& operator=(const T& o)
		{
			v = o.v;
			++copies;
			return *this;
		}
		T& operator=(T&& o) noexcept
		{
			v = o.v;
			o.v = -999;
			++moves;
			return *this;
		}
		friend bool operator==(const T& a, const T& b) { return a.v == b.v; }
	};

	struct Ex
	{
		int v;
		explicit Ex(int x) : v{x} {}
		Ex(const Ex&) = default;
		Ex(Ex&& o) noexcept : v{o.v} { o.v = -999; }
		Ex& operator=(const Ex&) = default;
		Ex& operator=(Ex&& o) noexcept
		{
			v = o.v;
			o.v = -999;
			return *this;
		}
	};

	struct ExD
		: public Ex
	{
		using Ex::Ex;
	};

	// identities: 0..2 the caller's objects, 40 the external object, 10.. others in order of appearance
	struct Recorder
	{
		std::map<const void*, int> ids{};
		std::vector<std::string> obs{};
		int next{10};

		int id(const void* p)
		{
			const auto [it, inserted] = ids.try_emplace(p, next);
			if (inserted)
				++next;
			return it->second;
		}
	};

	inline Recorder rec{};

	inline std::string one(const T& x) { return "[" + std::to_string(rec.id(&x)) + "," + std::to_string(x.v) + "]"; }
	inline std::string one(T* const& x) { return "[" + std::to_string(rec.id(x)) + "," + std::to_string(x->v) + "]"; }
	inline std::string one(const std::unique_ptr<T>& x)
	{
		return x ? "[" + std::to_string(rec.id(x.get())) + "," + std::to_string(x->v) + "]" : "[-1,0]";
	}
	inline std::string one(int x) { return "[-1," + std::to_string(x) + "]"; }

	inline T& deref(T& x) { return x; }
	inline const T& deref(const T& x) { return x; }
	inline T& deref(T* const& x) { return *x; }
	inline T& deref(const std::unique_ptr<T>& x) { return *x; }

	template <typename... A>
	void observe(const char* who, int k, const A&... a)
	{
		std::string s{"[\""};
		s += who;
		s += "\"," + std::to_string(k) + ",[";
		bool first = true;
		((s += (first ? "" : ",") + one(a), first = false), ...);
		rec.obs.push_back(s + "]]");
	}

	struct Spec
	{
		int sig{}, chain{}, fin{}, val{};
		std::vector<int> delta{}; // one per chain item
	};

	// a matcher that only observes
	struct ObsMatcher
	{
		const char* who;
		int k;

		template <typename X>
		bool matches(X& x) const
		{
			observe(who, k, x);
			return true;
		}

		std::string describe() const { return "obs"; }
	};

	struct NegProj
	{
		template <typename X>
		int operator()(X& x) const
		{
			return -deref(x).v;
		}
	};

	struct IdProj
	{
		template <typename X>
		X& operator()(X& x) const
		{
			return x;
		}
	};

	// state of a functor of the user, kept from call to call
	struct Runs
	{
		mutable int n{};
	};

	struct Eff
	{
		int k;
		int delta;
		Runs runs{}; // the r-th run adds delta + r - 1

		template <typename... A>
		void operator()(A&... a) const
		{
			observe("e", k, a...);
			(bump(a), ...);
			++runs.n;
		}

		template <typename X>
		void bump(X& x) const
		{
			if constexpr (requires { deref(x).v += 1; })
				deref(x).v += delta + runs.n;
		}
	};

	struct Tag
	{
		int k;

		bool is_satisfied() const noexcept { return true; }

		template <typename R, typename... A>
		bool matches(const call::Info<R, A...>& info) const
		{
			std::apply([&](auto&... a) { observe("t", k, a.get()...); }, info.args);
			return true;
		}

		std::optional<StringT> describe() const { return "tag"; }

		template <typename R, typename... A>
		void consume(const call::Info<R, A...>& info)
		{
			std::apply([&](auto&... a) { observe("e", k, a.get()...); }, info.args);
		}
	};

	inline T ext{4000};
	inline int fnCalls{};

	// chains, see Chain in Flow.tla
	template <int chain, typename B, typename K>
	ScopedExpectation with_chain(B&& b, const Spec& s, K&& k)
	{
		if constexpr (chain == 0)
			return k(std::move(b));
		else if constexpr (chain == 1)
			return k(
				std::move(b)
				and expect::arg<1>(ObsMatcher{"a", 1})
				and expect::arg<0>(ObsMatcher{"a", 2}, NegProj{})
				and expect::arg<2>(ObsMatcher{"a", 3}, IdProj{})
				and then::apply_arg<0>(Eff{4, s.delta[3]})
				and then::apply_arg<2>(Eff{5, s.delta[4]})
				and then::apply_args<2, 0>(Eff{6, s.delta[5]})
				and then::apply_all(Eff{7, s.delta[6]}));
		else if constexpr (chain == 2)
			return k(
				std::move(b)
				and then::apply_all(Eff{1, s.delta[0]})
				and then::apply_args<1, 2, 0>(Eff{2, s.delta[1]})
				and then::apply_arg<1>(Eff{3, s.delta[2]})
				and then::apply_args<0, 0>(Eff{4, s.delta[3]})
				and then::invoke([runs = 0]() mutable { observe("e", 5, ++runs); })
				and expect::arg<2>(ObsMatcher{"a", 6}));
		else if constexpr (chain == 4)
			return k(
				std::move(b)
				and then::apply_arg<2>(Eff{1, s.delta[0]})
				and expect::arg<0>(ObsMatcher{"a", 2})
				and then::apply_arg<0>(Eff{3, s.delta[2]})
				and expect::arg<1>(ObsMatcher{"a", 4}, NegProj{})
				and expect::arg<2>(ObsMatcher{"a", 5})
				and then::apply_args<1, 0>(Eff{6, s.delta[5]})
				and Tag{7}
				and then::apply_args<0, 0, 1, 2>(Eff{8, s.delta[7]})
				and then::invoke([runs = 0]() mutable { observe("e", 9, ++runs); })
				and then::apply_arg<1>(Eff{10, s.delta[9]})
				and expect::arg<1>(ObsMatcher{"a", 11}, IdProj{})
				and then::apply_all(Eff{12, s.delta[11]}));
		else
			return k(
				std::move(b)
				and then::apply_args<0, 1>(Eff{1, s.delta[0]})
				and Tag{2}
				and then::apply_args<2, 1, 0, 2>(Eff{3, s.delta[2]})
				and then::apply_arg<2>(Eff{4, s.delta[3]}));
	}

	// invocables that throw when they are invoked as the library has to do it, whatever other ways promise
	template <typename R>
	struct ThrowsUnlessConst
	{
		int val;
		int n{};

		R operator()() const noexcept { std::abort(); }
		R operator()()
		{
			++fnCalls;
			++n;
			throw Ex{val + n};
		}
	};

	template <typename R>
	struct ThrowsUnlessRvalue
	{
		int val;
		int n{};

		R operator()() && noexcept { std::abort(); }
		R operator()() &
		{
			++fnCalls;
			++n;
			throw Ex{val + n};
		}
	};

	// a result whose conversion throws
	template <typename R>
	struct Conv
	{
		int val;

		operator R() const { throw Ex{val}; }
	};

	// a finalizer of the user's own
	template <typename Fn>
	struct OwnFinalizer
	{
		Fn fn;

		template <typename R, typename... A>
		R finalize_call(const call::Info<R, A...>& info)
		{
			return std::apply([&](auto&... a) -> R { return fn(a.get()...); }, info.args);
		}
	};

	inline std::string result(const char* kind, int id, int v)
	{
		return std::string{"[\""} + kind + "\"," + std::to_string(id) + "," + std::to_string(v) + "]";
	}

	struct Outcome
	{
		std::string res{};
		std::vector<int> after{};
		int copies{};
	};

	using MakeFn = ScopedExpectation (*)(const Spec&);

	template <int sig>
	ScopedExpectation make(const Spec& s);
	template <int sig>
	Outcome do_call(const std::vector<int>& vals, const std::vector<int>& rv);
	template <int sig>
	void fresh();
}
