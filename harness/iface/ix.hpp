// Interface mocks: overloads by number, see spec/Interface.tla for their table.
#pragma once

#include "mimic++/mimic++.hpp"

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace ix
{
	using namespace mimicpp;

	inline int copies{};
	struct T
	{
		int v{};
		explicit T(int x) : v{x} {}
		T(const T& o) : v{o.v} { ++copies; }
		T(T&& o) noexcept : v{std::exchange(o.v, -999)} {}
		T& operator =(const T& o)
		{
			v = o.v;
			++copies;
			return *this;
		}
		T& operator =(T&& o) noexcept
		{
			v = std::exchange(o.v, -999);
			return *this;
		}
	};
	using Ptr = std::unique_ptr<T>;
	using Map = std::map<int, int>;
	using Pair = std::pair<int, int>;
	struct Ex { int v; };

	// what an argument or a result is worth
	inline int num(int x) { return x; }
	inline int num(const T& x) { return x.v; }
	inline int num(const T* x) { return x ? x->v : -998; }
	inline int num(const Ptr& x) { return x ? x->v : -998; }
	inline int num(const std::string& s) { return s.empty() ? -997 : std::atoi(s.c_str()); }
	inline int num(const Map& m) { return m.size() == 1 && m.begin()->first == m.begin()->second ? m.begin()->first : -996; }
	inline int num(const Pair& p) { return p.first == p.second ? p.first : -995; }

	// which object it is
	inline std::vector<const void*> known{}; // by position, of the current call
	inline const void* ext{};                // what the finalizer returned
	inline int idOf(const void* p)
	{
		if (p == ext && p)
			return 90;
		for (std::size_t i = 0; i < known.size(); ++i)
		{
			if (known[i] == p)
				return static_cast<int>(i);
		}
		return 99;
	}
	template <typename P>
	int id(const std::remove_reference_t<P>& x)
	{
		if constexpr (std::same_as<P, Ptr>)
			return idOf(x.get());
		else if constexpr (std::is_pointer_v<P>)
			return idOf(x);
		else if constexpr (std::is_reference_v<P>)
			return idOf(&x);
		else
			return -1;
	}

	// makes the caller's objects and passes them as the parameter type wants them
	template <typename P>
	struct Arg
	{
		using O = std::remove_cvref_t<P>;
		O o;
		explicit Arg(int v) : o(make(v)) { known.push_back(where()); }
		static O make(int v)
		{
			if constexpr (std::same_as<O, std::string>) return std::to_string(v);
			else if constexpr (std::same_as<O, Map>) return Map{{v, v}};
			else if constexpr (std::same_as<O, Ptr>) return std::make_unique<T>(v);
			else if constexpr (std::is_pointer_v<O>) return new T{v};
			else return O(v);
		}
		const void* where() const
		{
			if constexpr (std::same_as<O, Ptr>) return o.get();
			else if constexpr (std::is_pointer_v<O>) return o;
			else return &o;
		}
		decltype(auto) pass()
		{
			if constexpr (std::is_lvalue_reference_v<P>)
				return static_cast<P>(o);
			else
				return static_cast<O&&>(o);
		}
		~Arg()
		{
			if constexpr (std::is_pointer_v<O>)
				delete o;
		}
	};

	struct Call
	{
		int x = -1;
		std::string obs{"[]"};
		std::string verdict{};
		std::string res{"[-2,0]"};
		std::vector<int> after{};
	};
	inline Call cur{};

	struct Def
	{
		int x{}, lim{}, fin{}, res{};
		std::vector<int> pats{};
	};

	struct None {};
	struct Inapp {};

	inline std::string pairText(int a, int b) { return "[" + std::to_string(a) + "," + std::to_string(b) + "]"; }

	struct Entry
	{
		std::function<ScopedExpectation(const Def&)> expect{};
		std::function<void(int, const std::vector<int>&)> call{};
		int params{};
	};
	inline std::map<int, Entry> table{};

	template <typename P>
	auto matcher(int pat)
	{
		return matches::predicate([pat](const std::remove_reference_t<P>& x) { return pat == -1 || num(x) == pat; });
	}

	template <typename R>
	R produce(const Def& d)
	{
		static std::vector<Ptr> all{};
		if (d.fin == 1)
			throw Ex{d.res};
		if constexpr (std::is_reference_v<R>)
		{
			all.push_back(std::make_unique<T>(d.res));
			ext = all.back().get();
			return static_cast<R>(*all.back());
		}
		else if constexpr (std::same_as<R, Ptr>)
		{
			auto p = std::make_unique<T>(d.res);
			ext = p.get();
			return p;
		}
		else if constexpr (std::same_as<R, Pair>)
			return Pair{d.res, d.res};
		else if constexpr (!std::is_void_v<R>)
			return R(d.res);
	}

	template <typename A>
	void bump(A& a)
	{
		if constexpr (std::same_as<A, T>)
			a.v += 1000;
	}

	template <typename R, typename... P, std::size_t... i>
	Entry entry(std::index_sequence<i...>, auto toMock, auto through)
	{
		Entry e{};
		e.params = sizeof...(P);
		e.expect = [=](const Def& d) {
			auto b = toMock(matcher<P>(d.pats[i])...) and expect::at_most(d.lim);
			const auto seen = [d](auto&... a) {
				cur.x = d.x;
				std::string s{};
				((s += (s.empty() ? "" : ",") + pairText(id<P>(a), num(a))), ...);
				cur.obs = "[" + s + "]";
				(bump(a), ...);
			};
			const auto fin = [d]() -> R { return produce<R>(d); };
			const auto done = [&](auto x) {
				if constexpr (!std::is_void_v<R>)
					return ScopedExpectation{std::move(x) and finally::returns_result_of(fin)};
				else if (d.fin == 1)
					return ScopedExpectation{std::move(x) and finally::throws(Ex{d.res})};
				else
					return ScopedExpectation{std::move(x)};
			};
			if constexpr (sizeof...(P) == 0)
				return done(std::move(b) and then::invoke(seen));
			else
				return done(std::move(b) and then::apply_all(seen));
		};
		e.call = [=](int via, const std::vector<int>& vals) {
			known.clear();
			ext = nullptr;
			known.reserve(16);
			std::tuple<Arg<P>...> args{vals[i]...};
			// the tuple is filled in any order
			known.assign({std::get<i>(args).where()...});
			copies = 0;
			const auto go = [&]() -> R { return through(via, std::get<i>(args).pass()...); };
			try
			{
				if constexpr (std::is_void_v<R>)
				{
					go();
					cur.verdict = "ok";
				}
				else
				{
					decltype(auto) r = go();
					cur.verdict = "ok";
					cur.res = pairText(id<R>(r), num(r));
				}
			}
			catch (const None&) { cur.verdict = "none"; }
			catch (const Inapp&) { cur.verdict = "inapp"; }
			catch (const Ex& ex)
			{
				cur.verdict = "ex";
				cur.res = pairText(-1, ex.v);
			}
			const auto after = [](auto& a) {
				using O = std::remove_cvref_t<decltype(a.o)>;
				if constexpr (std::same_as<O, T>)
					return a.o.v;
				else
					return 0;
			};
			cur.after = {after(std::get<i>(args))...};
		};
		return e;
	}

	template <typename R, typename... P>
	void ov(int k, auto toMock, auto through)
	{
		table[k] = entry<R, P...>(std::index_sequence_for<P...>{}, toMock, through);
	}

	void table1();
	void table2();
	void table3();
	void use(int obj);         // the current object
	void renew(int obj);       // a new one
	void relocate(int obj);    // moves it elsewhere
}

// k: number, Q: const or nothing, m: method, I1, I2: interfaces
#define IX_OV(k, Q, m, I1, I2, R, ...)                                                                                  \
	ov<R __VA_OPT__(,) __VA_ARGS__>(                                                                                      \
		k,                                                                                                              \
		[](auto&&... p) { return static_cast<Q D&>(*d).m##_.expect_call(std::move(p)...); },                             \
		[](int via, auto&&... a) -> R {                                                                                 \
			switch (via)                                                                                                \
			{                                                                                                           \
			case 0: return static_cast<Q I1&>(*d).m(std::forward<decltype(a)>(a)...);                                    \
			case 1: return static_cast<Q D&>(*d).m##_(std::forward<decltype(a)>(a)...);                                  \
			case 2: return static_cast<Q D&>(*d).m(std::forward<decltype(a)>(a)...);                                     \
			default: return static_cast<Q I2&>(*d).m(std::forward<decltype(a)>(a)...);                                   \
			}                                                                                                           \
		})
