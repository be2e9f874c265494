// Setting up an expectation element by element; the nodes are generated by lib/setup.py from behaviours of spec/Builder.tla.
#pragma once

#include "mimic++/mimic++.hpp"

#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace bd
{
	using namespace mimicpp;
	using str = std::string;
	using Up = std::unique_ptr<int>;
	struct S // neither an aggregate nor comparable
	{
		int v;
		explicit S(int x, bool) : v{x} {}
	};
	struct X
	{
		int v;
		explicit operator int() const { return v; }
	};

	inline int val(int x) { return x; }
	inline int val(double x) { return static_cast<int>(x); }
	inline int val(const str& x) { return static_cast<int>(x.size()); }
	inline int val(const Up& x) { return x ? *x : -1; }
	inline int val(const S& x) { return x.v; }
	inline void bump(int& x) { ++x; }
	inline void bump(double& x) { x += 1; }
	inline void bump(str& x) { x += 'x'; }
	inline void bump(Up& x) { ++*x; }
	inline void bump(S& x) { ++x.v; }
	template <typename T> void bump(const T&) {}
	inline int sum() { return 0; }
	template <typename T, typename... Ts> int sum(const T& x, const Ts&... xs) { return val(x) + 10 * sum(xs...); }

	struct Context
	{
		LazySequence s1{}, s2{};
		GreedySequence s3{};
		std::vector<std::pair<str, int>> log{};
		int five{5};
		str eight{"12345678"};
	};
	inline Context* ctx{};
	inline void note(const char* n, int v) { ctx->log.emplace_back(n, v); }

	// elements
	template <typename, typename T> struct late { using type = T; };
#define BD_ITEM(n, ...)                                        \
	struct I_##n                                               \
	{                                                          \
		static const char* name() { return #n; }               \
		static auto make() { return __VA_ARGS__; }             \
	};
	BD_ITEM(t2, expect::times(2))
	BD_ITEM(t13, expect::times(1, 3))
	BD_ITEM(atl1, expect::at_least(1))
	BD_ITEM(atm1, expect::at_most(1))
	BD_ITEM(never, expect::times(0))
	BD_ITEM(once, expect::once())
	BD_ITEM(twice, expect::twice())
	BD_ITEM(s1, expect::in_sequence(ctx->s1))
	BD_ITEM(s2, expect::in_sequence(ctx->s2))
	BD_ITEM(s12, expect::in_sequences(ctx->s1, ctx->s2))
	BD_ITEM(g3, expect::in_sequence(ctx->s3))
	BD_ITEM(s31, expect::in_sequences(ctx->s3, ctx->s1))

	BD_ITEM(ret7, finally::returns(7))
	BD_ITEM(rets, finally::returns(str{"1234567"}))
	BD_ITEM(reto, finally::returns(S{7, true}))
	BD_ITEM(retx, finally::returns(X{7}))
	BD_ITEM(retr, finally::returns(std::ref(ctx->five)))
	BD_ITEM(retcr, finally::returns(std::cref(ctx->five)))
	BD_ITEM(res8, finally::returns_result_of([] { return 8; }))
	BD_ITEM(ress, finally::returns_result_of([] { return str{"12345678"}; }))
	BD_ITEM(resu, finally::returns_result_of([] { return std::make_unique<int>(8); }))
	BD_ITEM(resr, finally::returns_result_of([]() -> int& { return ctx->five; }))
	BD_ITEM(resc, finally::returns_result_of([]() -> const str& { return ctx->eight; }))
	BD_ITEM(resx, finally::returns_result_of([] { return X{8}; }))
	BD_ITEM(arg0, finally::returns_arg<0>())
	BD_ITEM(arg1, finally::returns_arg<1>())
	BD_ITEM(arg2, finally::returns_arg<2>())
	struct Same
	{
		template <typename T> T& operator()(T& x) const { return x; }
	};
	struct Sum
	{
		template <typename... Ts> int operator()(Ts&... xs) const { return sum(xs...); }
	};
	BD_ITEM(app0, finally::returns_apply_result_of<0>(Same{}))
	BD_ITEM(app1, finally::returns_apply_result_of<1>(Same{}))
	BD_ITEM(appi, finally::returns_apply_result_of<0>([](int& x) { return x; }))
	struct Sum2
	{
		template <typename A, typename B> int operator()(A& a, B& b) const { return sum(a, b); }
	};
	BD_ITEM(app10, finally::returns_apply_result_of<1, 0>(Sum2{}))
	BD_ITEM(appv, finally::returns_apply_result_of<1>([](const str& x) { return val(x); }))
	BD_ITEM(appa, finally::returns_apply_all_result_of(Sum{}))
	BD_ITEM(appis, finally::returns_apply_all_result_of([](int& a, str& b) { return sum(a, b); }))
	BD_ITEM(appn, finally::returns_apply_all_result_of([](int a) { return a; }))
	BD_ITEM(thr, finally::throws(42))
	struct OwnFinalizer
	{
		template <typename R, typename... Ps>
			requires std::same_as<R, int>
		R finalize_call(const call::Info<R, Ps...>&) { return 9; }
	};
	BD_ITEM(ownf, OwnFinalizer{})

#define BD_LATE(n, type_, ...)                                                     \
	struct I_##n                                                                   \
	{                                                                              \
		static const char* name() { return #n; }                                   \
		template <typename D = int, typename T = typename late<D, type_>::type>    \
		static auto make() -> decltype(__VA_ARGS__);                               \
	};
	BD_LATE(nou, Up, finally::returns(std::declval<T>()))
	BD_LATE(nov, void (*)(), finally::returns_result_of(std::declval<T>()))
	BD_LATE(noe, Up, finally::throws(std::declval<T>()))

	BD_ITEM(any0, expect::arg<0>(matches::_))
	BD_ITEM(any1, expect::arg<1>(matches::_))
	BD_ITEM(any2, expect::arg<2>(matches::_))
	BD_ITEM(any3, expect::arg<3>(matches::_))
	BD_ITEM(eq0, expect::arg<0>(matches::eq(1)))
	BD_ITEM(eq1, expect::arg<1>(matches::eq(1)))
	BD_ITEM(eq2, expect::arg<2>(matches::eq(1)))
	BD_ITEM(ne0, expect::arg<0>(matches::eq(2)))
	BD_ITEM(ne1, expect::arg<1>(matches::eq(2)))
	BD_ITEM(lt0, expect::arg<0>(matches::lt(2)))
	BD_ITEM(st0, expect::arg<0>(matches::str::eq("a")))
	BD_ITEM(st1, expect::arg<1>(matches::str::eq("a")))
	BD_ITEM(sn0, expect::arg<0>(matches::str::eq("b")))
	BD_ITEM(sn1, expect::arg<1>(matches::str::eq("b")))
	BD_ITEM(pr0, expect::arg<0>(matches::eq(1), [](const str& x) { return val(x); }))
	BD_ITEM(pr1, expect::arg<1>(matches::eq(1), [](const str& x) { return val(x); }))
	struct IsA
	{
		bool operator()(const str& x) const { return x == "a"; }
	};
	struct IsOne
	{
		bool operator()(const S& x) const { return x.v == 1; }
	};
	BD_ITEM(pd1, expect::arg<1>(matches::predicate(IsA{})))
	BD_ITEM(so0, expect::arg<0>(matches::predicate(IsOne{})))

	// side effects: they note what they see, then change it if they do
	template <bool change>
	struct Look
	{
		const char* n;
		template <typename... Ts>
		void operator()(Ts&... xs) const
		{
			note(n, sum(xs...));
			if constexpr (change)
				(bump(xs), ...);
		}
	};
	template <std::size_t count>
	struct LookN
	{
		const char* n;
		bool change;
		template <typename... Ts>
			requires (sizeof...(Ts) == count)
		void operator()(Ts&... xs) const
		{
			note(n, sum(xs...));
			if (change)
				(bump(xs), ...);
		}
	};
	BD_ITEM(inv, then::invoke([] { note("inv", 0); }))
	BD_ITEM(e0, then::apply_arg<0>(LookN<1>{"e0", true}))
	BD_ITEM(e1, then::apply_arg<1>(LookN<1>{"e1", true}))
	BD_ITEM(e2, then::apply_arg<2>(LookN<1>{"e2", true}))
	BD_ITEM(ei0, then::apply_arg<0>([](int& x) { note("ei0", x++); }))
	BD_ITEM(ev0, then::apply_arg<0>([](int x) { note("ev0", x); }))
	BD_ITEM(ev1, then::apply_arg<1>([](int x) { note("ev1", x); }))
	BD_ITEM(es0, then::apply_arg<0>([](const str& x) { note("es0", val(x)); }))
	BD_ITEM(es1, then::apply_arg<1>([](const str& x) { note("es1", val(x)); }))
	BD_ITEM(er0, then::apply_arg<0>([](str&& x) { note("er0", val(x)); }))
	BD_ITEM(er1, then::apply_arg<1>([](str&& x) { note("er1", val(x)); }))
	BD_ITEM(e01, then::apply_args<0, 1>(LookN<2>{"e01", true}))
	struct Look10
	{
		template <typename A> void operator()(A& a, int& b) const { note("e10", sum(a, b)); }
	};
	BD_ITEM(e10, then::apply_args<1, 0>(Look10{}))
	BD_ITEM(e212, then::apply_args<2, 1, 2>(LookN<3>{"e212", false}))
	BD_ITEM(ea, then::apply_all(Look<true>{"ea"}))
	BD_ITEM(eai, then::apply_all([](int x) { note("eai", x); }))
	BD_ITEM(eais, then::apply_all([](int& a, str& b) { note("eais", sum(a, b)); bump(a); bump(b); }))

	template <typename R, typename... Ps>
	struct Fitting
	{
		static constexpr bool any = true;
		static constexpr bool isInt = std::same_as<R, int>;
		static constexpr bool isTwo = sizeof...(Ps) == 2;
	};
#define BD_OWN(n, cond, match)                                                                       \
	struct Own_##n                                                                                   \
	{                                                                                                \
		bool used{};                                                                                 \
		bool is_satisfied() const noexcept { return used; }                                          \
		template <typename R, typename... Ps>                                                        \
			requires (Fitting<R, Ps...>::cond)                                                       \
		bool matches(const call::Info<R, Ps...>&) const { return match; }                            \
		template <typename R, typename... Ps>                                                        \
			requires (Fitting<R, Ps...>::cond)                                                       \
		void consume(const call::Info<R, Ps...>&) noexcept { used = true; note(#n, 0); }             \
		std::optional<StringT> describe() const { return #n; }                                       \
	};                                                                                               \
	BD_ITEM(n, Own_##n{})
	BD_OWN(own, any, true)
	BD_OWN(owni, isInt, true)
	BD_OWN(owno, isTwo, true)
	BD_OWN(ownn, any, false)
	BD_ITEM(num, 42)
	BD_ITEM(obj, S{1, true})
	BD_ITEM(fun, [] {})

	// positional arguments
#define BD_POS(n, text, ...)                                   \
	struct P_##n                                               \
	{                                                          \
		static const char* name() { return text; }             \
		static auto get() { return __VA_ARGS__; }              \
	};
	BD_POS(any, "_", matches::_)
	BD_POS(i1, "1", 1)
	BD_POS(i2, "2", 2)
	BD_POS(d1, "1.0", 1.0)
	BD_POS(str, "stra", bd::str{"a"})
	BD_POS(eq, "eq1", matches::eq(1))
	BD_POS(streq, "streq", matches::str::eq("a"))
	BD_POS(obj, "S", S{1, true})
	BD_POS(null, "null", nullptr)
	struct P_a
	{
		static const char* name() { return "a"; }
		static const char (&get())[2] { return "a"; }
	};
	struct P_b
	{
		static const char* name() { return "b"; }
		static const char (&get())[2] { return "b"; }
	};
	template <typename...> struct Pos;

	// recording
	struct Rejected
	{
	};
	struct Seen
	{
		str what{};
		str control{};
		str verdicts{};
	};
	inline Seen seen{};
	inline bool unfulfilled{};
	inline str list(const std::vector<str>& xs)
	{
		str r{"["};
		for (const str& x : xs)
			r += (r.size() > 1 ? "," : "") + x;
		return r + "]";
	}
	inline str quoted(const str& s) { return "\"" + s + "\""; }
	inline void look(const char* what, const MatchReport& m)
	{
		seen.what = what;
		std::vector<str> vs{};
		for (const auto& e : m.expectationReports)
			vs.push_back(e.isMatching ? "true" : "false");
		seen.verdicts = list(vs);
		const auto control = [](const char* n, const auto& s, std::size_t k) {
			seen.control = list({quoted(n), std::to_string(s.min), std::to_string(s.max), std::to_string(s.count), std::to_string(k)});
		};
		if (const auto* a = std::get_if<state_applicable>(&m.controlReport))
			control("applicable", *a, a->sequenceRatings.size());
		else if (const auto* s = std::get_if<state_saturated>(&m.controlReport))
			control("saturated", *s, s->sequences.size());
		else if (const auto* i = std::get_if<state_inapplicable>(&m.controlReport))
			control("inapplicable", *i, i->sequenceRatings.size() + i->inapplicableSequences.size());
	}
	class Reporter final
		: public IReporter
	{
	public:
		[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport> ms) override
		{
			look("none", ms.at(0));
			throw Rejected{};
		}
		[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport> ms) override
		{
			look("inapplicable", ms.at(0));
			throw Rejected{};
		}
		void report_full_match(CallReport, MatchReport m) noexcept override { look("full", m); }
		void report_unfulfilled_expectation(ExpectationReport) override { unfulfilled = true; }
		void report_error(StringT) override { seen.what = "error"; }
		void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) noexcept override { seen.what = "unhandled"; }
	};

	// calls
	template <typename P> struct One { static P get() { return P{1}; } };
	template <> struct One<str> { static str get() { return "a"; } };
	template <> struct One<Up> { static Up get() { return std::make_unique<int>(1); } };
	template <> struct One<S> { static S get() { return S{1, true}; } };
	template <typename P>
	struct Holder
	{
		using B = std::remove_cvref_t<P>;
		B v{One<B>::get()};
		decltype(auto) pass()
		{
			if constexpr (std::is_lvalue_reference_v<P>)
				return (v);
			else if constexpr (std::is_rvalue_reference_v<P> || std::same_as<B, Up>)
				return std::move(v);
			else
				return B{v};
		}
		int after() const
		{
			if constexpr (std::same_as<B, Up>)
				return 1;
			else
				return val(v);
		}
	};
	template <typename Sig> struct Caller;
	template <typename R, typename... Ps>
	struct Caller<R(Ps...)>
	{
		static str call(auto& mock, str& after)
		{
			std::tuple<Holder<Ps>...> hs{};
			str res{};
			try
			{
				std::apply(
					[&](auto&... h) {
						if constexpr (std::is_void_v<R>)
						{
							mock(h.pass()...);
							res = "none";
						}
						else
						{
							R r = mock(h.pass()...);
							res = std::to_string(val(r));
						}
					},
					hs);
			}
			catch (const Rejected&)
			{
				res = "rejected";
			}
			catch (int e)
			{
				res = e == 42 ? "thrown" : "another exception";
			}
			std::vector<str> as{};
			std::apply([&](auto&... h) { (as.push_back(std::to_string(h.after())), ...); }, hs);
			after = list(as);
			return res;
		}
	};

	template <typename B, typename I> concept takes = requires(B b) { std::move(b) && I::make(); };

	using Catalog = std::tuple<
		I_t2, I_t13, I_atl1, I_atm1, I_never, I_once, I_twice, I_s1, I_s2, I_s12, I_g3, I_s31, I_ret7, I_rets, I_reto, I_retx, I_retr, I_retcr, I_res8, I_ress, I_resu,
		I_resr, I_resc, I_resx, I_arg0, I_arg1, I_arg2, I_app0, I_app1, I_appi, I_app10, I_appv, I_appa, I_appis, I_appn, I_thr, I_ownf, I_nou, I_nov, I_noe, I_any0, I_any1,
		I_any2, I_any3, I_eq0, I_eq1, I_eq2, I_ne0, I_ne1, I_lt0, I_st0, I_st1, I_sn0, I_sn1, I_pr0, I_pr1, I_pd1, I_so0, I_inv, I_e0, I_e1, I_e2, I_ei0, I_ev0, I_ev1, I_es0,
		I_es1, I_er0, I_er1, I_e01, I_e10, I_e212, I_ea, I_eai, I_eais, I_own, I_owni, I_owno, I_ownn, I_num, I_obj, I_fun>;
	using Few = std::tuple<I_t2, I_once, I_s1, I_s31, I_ret7, I_rets, I_res8, I_resu, I_arg0, I_appa, I_thr, I_any0, I_any3, I_eq0, I_st1, I_inv, I_e1, I_ei0, I_own, I_num>;
	template <typename... Is>
	str names(std::tuple<Is...>*)
	{
		return list({quoted(Is::name())...});
	}
	template <typename B, typename... Is>
	str accepted(std::tuple<Is...>*)
	{
		std::vector<str> r{};
		((takes<B, Is> ? r.push_back(quoted(Is::name())) : void()), ...);
		return list(r);
	}

	template <typename Sig, typename Ps> struct Start;
	template <typename Sig, typename... Ps>
	struct Start<Sig, Pos<Ps...>>
	{
		static auto make(Mock<Sig>& m) { return m.expect_call(Ps::get()...); }
		static str names() { return list({quoted(Ps::name())...}); }
		static constexpr bool can = requires(Mock<Sig>& m) { m.expect_call(Ps::get()...); };
	};

	template <int sig, typename Sig, typename Ps>
	str pos()
	{
		return "{\"op\":\"pos\",\"sig\":" + std::to_string(sig) + ",\"pos\":" + Start<Sig, Ps>::names() + ",\"can\":" + (Start<Sig, Ps>::can ? "true" : "false") + "}";
	}

	template <int sig, typename Sig, typename Ps, bool complete, typename... Is>
	str path()
	{
		Context c{};
		ctx = &c;
		Mock<Sig> m{};
		using B = decltype((Start<Sig, Ps>::make(m) && ... && Is::make()));
		// everything is tried on the shorter ones
		using Tried = std::conditional_t<sizeof...(Is) <= 1, Catalog, Few>;
		str r = "{\"op\":\"path\",\"sig\":" + std::to_string(sig) + ",\"pos\":" + Start<Sig, Ps>::names() + ",\"path\":" + list({quoted(Is::name())...})
				+ ",\"accepted\":" + accepted<B>(static_cast<Tried*>(nullptr)) + ",\"tried\":" + names(static_cast<Tried*>(nullptr)) + ",\"run\":" + (complete ? "true" : "false");
		if constexpr (complete)
		{
			str created{"ok"};
			std::vector<str> calls{};
			unfulfilled = false;
			try
			{
				ScopedExpectation exp = (Start<Sig, Ps>::make(m) && ... && Is::make());
				for (int n = 0; n < 3; ++n)
				{
					seen = {};
					c.log.clear();
					str after{};
					const str res = Caller<Sig>::call(m, after);
					std::vector<str> log{};
					for (const auto& [k, v] : c.log)
						log.push_back("[" + quoted(k) + "," + std::to_string(v) + "]");
					calls.push_back("{\"what\":" + quoted(seen.what) + ",\"verdicts\":" + (seen.verdicts.empty() ? "[]" : seen.verdicts) + ",\"control\":" + (seen.control.empty() ? "[]" : seen.control)
						+ ",\"res\":" + quoted(res) + ",\"log\":" + list(log) + ",\"after\":" + after + ",\"sat\":" + (exp.is_satisfied() ? "true" : "false") + "}");
				}
			}
			catch (const std::invalid_argument&)
			{
				created = "invalid_argument";
			}
			r += ",\"created\":" + quoted(created) + ",\"calls\":" + list(calls) + ",\"end\":" + quoted(unfulfilled ? "unfulfilled" : "fulfilled");
		}
		ctx = nullptr;
		return r + "}";
	}

	using Item = std::function<str()>;
	inline std::vector<Item>& items()
	{
		static std::vector<Item> v{};
		return v;
	}
	inline void put(std::size_t k, Item i)
	{
		if (items().size() <= k)
			items().resize(k + 1);
		items()[k] = std::move(i);
	}
}
