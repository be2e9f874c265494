#include "mx.hpp"

namespace mx
{
	// values whose relations are given by tables over 0..2: eq and lt of the script, the others consistent with them
	struct P
	{
		int v{};
	};

	inline int eqTab[3][3]{};
	inline int ltTab[3][3]{};

	inline bool operator==(const P& a, const P& b) { return eqTab[a.v][b.v]; }
	inline bool operator!=(const P& a, const P& b) { return !eqTab[a.v][b.v]; }
	inline bool operator<(const P& a, const P& b) { return ltTab[a.v][b.v]; }
	inline bool operator>(const P& a, const P& b) { return ltTab[b.v][a.v]; }
	inline bool operator<=(const P& a, const P& b) { return ltTab[a.v][b.v] || eqTab[a.v][b.v]; }
	inline bool operator>=(const P& a, const P& b) { return ltTab[b.v][a.v] || eqTab[a.v][b.v]; }

	template <typename T>
	T decode(const Enc& e)
	{
		if constexpr (std::same_as<T, P>)
			return P{e[0]};
		else if constexpr (std::same_as<T, double>)
			return e[0] == 99999 ? std::nan("") : e[0] / 2.0;
		else if constexpr (std::same_as<T, std::string>)
		{
			std::string s{};
			for (int c : e)
				s.push_back(static_cast<char>(c));
			return s;
		}
		else
			return static_cast<T>(e[0]);
	}

	template <typename T>
	bool same(const T& a, const T& b)
	{
		if constexpr (std::same_as<T, P>)
			return a.v == b.v;
		else if constexpr (std::same_as<T, double>)
			return std::memcmp(&a, &b, sizeof a) == 0;
		else
			return a == b;
	}

	template <typename T>
	struct CmpEv
	{
		std::string operand{};

		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			T x = decode<T>(e);
			const T c = x;
			return both(m, x, [&] { return same(x, c); });
		}
	};

	template <typename T, typename Target = T>
	AnyPtr by_kind(const std::string& kind, int src, const Enc& arg)
	{
		T v = decode<T>(arg);
		const CmpEv<Target> ev{std::string{mimicpp::print(v)}};
		const auto fin = [&](auto&& mk) -> AnyPtr {
			if (src == 0)
				return box(mk(T(v)), ev);
			// the matcher must not depend on the variable it was made from
			auto m = mk(v);
			v = decode<T>({0});
			return box(std::move(m), ev);
		};
		if (kind == "eq")
			return fin([](auto&& x) { return matches::eq(std::forward<decltype(x)>(x)); });
		if (kind == "ne")
			return fin([](auto&& x) { return matches::ne(std::forward<decltype(x)>(x)); });
		if (kind == "lt")
			return fin([](auto&& x) { return matches::lt(std::forward<decltype(x)>(x)); });
		if (kind == "le")
			return fin([](auto&& x) { return matches::le(std::forward<decltype(x)>(x)); });
		if (kind == "gt")
			return fin([](auto&& x) { return matches::gt(std::forward<decltype(x)>(x)); });
		if (kind == "ge")
			return fin([](auto&& x) { return matches::ge(std::forward<decltype(x)>(x)); });
		return nullptr;
	}

	// instances: all of them compare equal, and some share their address or complete object with another type's
	struct Sly
	{
		int v{7};
		Sly* operator&() { return nullptr; }
		const Sly* operator&() const { return nullptr; }
		friend bool operator==(const Sly&, const Sly&) { return true; }
	};
	struct Node
	{
		int v{7};
		virtual ~Node() = default;
	};
	struct First : Node {};
	struct Second : Node {};
	struct Pair final : First, Second {};
	struct Sub final : Node
	{
		int w{7};
	};

	struct Ints
	{
		std::array<int, 4> objs{7, 7, 7, 7};
		int& at(std::size_t i) { return objs[i]; }
		int& target(std::size_t i) { return objs[i]; }
		static bool same(const int& x) { return x == 7; }
	};
	struct Slies
	{
		std::array<Sly, 4> objs{};
		Sly& at(std::size_t i) { return objs[i]; }
		Sly& target(std::size_t i) { return objs[i]; }
		static bool same(const Sly& x) { return x.v == 7; }
	};
	// two of the same type within one object
	struct Pairs
	{
		std::array<Pair, 2> objs{};
		Node& at(std::size_t i) { return i % 2 == 0 ? static_cast<Node&>(static_cast<First&>(objs[i / 2])) : static_cast<Second&>(objs[i / 2]); }
		Node& target(std::size_t i) { return at(i); }
		static bool same(const Node& x) { return x.v == 7; }
	};
	// an instance known by its base, matched as the object it is
	struct Subs
	{
		std::array<Sub, 4> objs{};
		Node& at(std::size_t i) { return objs[i]; }
		Sub& target(std::size_t i) { return objs[i]; }
		static bool same(const Sub& x) { return x.v == 7 && x.w == 7; }
	};

	template <typename O>
	struct InstEv
	{
		std::string operand{};
		std::shared_ptr<O> objs{};

		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			auto& x = objs->target(static_cast<std::size_t>(e[0]));
			return both(m, x, [&] { return O::same(x); });
		}
	};

	template <typename O>
	AnyPtr instance_of(std::size_t k, bool asConst)
	{
		auto objs = std::make_shared<O>();
		auto& o = objs->at(k);
		const auto* p = std::addressof(o);
		const InstEv<O> ev{std::string{mimicpp::print(p)}, objs};
		return asConst ? box(matches::instance(std::as_const(o)), ev) : box(matches::instance(o), ev);
	}

	// predicates of several kinds, and matchers of the user's own
	inline bool hit(int mask, int x) { return x >= 0 && x < 16 && (mask >> x & 1) != 0; }
	struct Num
	{
		int v{};
		int mask{};
		bool good() const { return hit(mask, v); }
	};
	struct NumEv
	{
		std::string operand{};
		int mask{};
		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			Num x{e[0], mask};
			return both(m, x, [&] { return x.v == e[0] && x.mask == mask; });
		}
	};
	struct Own
	{
		int mask{};
		bool matches(const int& x) const { return hit(mask, x); }
		std::string_view describe() const { return "is my own"; }
	};
	struct Hooked
	{
		int mask{};
		// not what counts
		bool matches(const int& x) const { return !hit(mask, x); }
		std::string_view describe() const { return "?"; }
	};
}
template <>
struct mimicpp::custom::matcher_traits<mx::Hooked>
{
	static bool matches(const mx::Hooked& m, const int& x) { return mx::hit(m.mask, x); }
	static std::string_view describe(const mx::Hooked&) { return "is hooked"; }
};
namespace mx
{

	struct Wild final : AnyM
	{
		int eval(const Enc& e) const override
		{
			int acc = -1;
			int i = e[0];
			join(acc, both(matches::_, i, [&] { return i == e[0]; }));
			std::string s(static_cast<std::size_t>(e[0] < 0 ? 0 : e[0] % 5), 'x');
			join(acc, both(matches::_, s, [] { return true; }));
			P p{0};
			join(acc, both(matches::_, p, [&] { return p.v == 0; }));
			std::unique_ptr<int> u{};
			join(acc, both(matches::_, u, [&] { return !u; }));
			return acc;
		}
		std::string describe() const override { return std::string{matches::_.describe()}; }
		AnyPtr inv(bool, bool&) override { return nullptr; }
		AnyPtr dup(bool, bool&) override { return std::make_unique<Wild>(); }
	};

	struct Quiet final : IReporter
	{
		[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport>) override { throw 1; }
		[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { throw 2; }
		void report_full_match(CallReport, MatchReport) noexcept override {}
		void report_unfulfilled_expectation(ExpectationReport) override {}
		void report_error(StringT) override {}
		void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) noexcept override {}
	};

	// a value, instead of a matcher, as requirement of an expectation
	template <typename Param, typename Target>
	struct Direct final : AnyM
	{
		mutable Mock<void(Param)> mock{};
		ScopedExpectation* exp{};

		template <typename V>
		explicit Direct(V&& v)
		{
			exp = new ScopedExpectation(mock.expect_call(std::forward<V>(v)) and expect::times(0, 100000));
		}

		~Direct() override { delete exp; }

		int eval(const Enc& e) const override
		{
			Target x = decode<Target>(e);
			try
			{
				if constexpr (std::same_as<Param, const char*>)
					mock(x.c_str());
				else
					mock(x);
				return same(x, decode<Target>(e)) ? 1 : 2;
			}
			catch (int k)
			{
				return k == 1 ? 0 : 2;
			}
		}
		std::string describe() const override { return ""; }
		AnyPtr inv(bool, bool&) override { return nullptr; }
		AnyPtr dup(bool, bool&) override { return nullptr; }
	};

	void quiet() { install_reporter<Quiet>(); }
	AnyPtr make_catch(int src, int mask);

	AnyPtr make_cmp(Words& w)
	{
		const std::string kind = w.word();
		const int ty = w.num(), src = w.num();
		const Enc arg = w.list();
		if (ty == 2)
		{
			const Enc e = w.list(), l = w.list();
			for (std::size_t i = 0; i < 9; ++i)
			{
				eqTab[i / 3][i % 3] = e[i];
				ltTab[i / 3][i % 3] = l[i];
			}
		}
		if (kind == "any")
			return std::make_unique<Wild>();
		if (kind == "pred")
		{
			const int mask = arg[0];
			switch (src)
			{
			case 0: return box(matches::predicate([mask](const int& x) { return hit(mask, x); }), CmpEv<int>{});
			case 1: return box(matches::predicate([m = std::make_unique<int>(mask)](const int& x) { return hit(*m, x); }), CmpEv<int>{});
			case 2: return box(matches::predicate(&Num::good), NumEv{"", mask});
			default: return box(PredicateMatcher{[](const int& x, const int& m, const int& n) { return hit(m - n, x); }, "passes predicate", "fails predicate",
												 std::tuple{mask + 3, 3}}, CmpEv<int>{});
			}
		}
		if (kind == "predt")
		{
			const int mask = arg[0];
			return box(PredicateMatcher{[](const int& x, const int& m) { return hit(m, x); }, "has bit in {}", "has no bit in {}", std::tuple{mask}},
					   CmpEv<int>{std::to_string(mask)});
		}
		if (kind == "own")
		{
			install_reporter<Quiet>();
			if (src > 1)
				return make_catch(src, arg[0]);
			if (src == 0)
				return std::make_unique<Direct<int, int>>(Own{arg[0]});
			return std::make_unique<Direct<int, int>>(Hooked{arg[0]});
		}
		if (kind == "inst")
		{
			const auto k = static_cast<std::size_t>(arg[0]);
			switch (ty)
			{
			case 11: return instance_of<Slies>(k, src != 0);
			case 12: return instance_of<Pairs>(k, src != 0);
			case 13: return instance_of<Subs>(k, src != 0);
			default: return instance_of<Ints>(k, src != 0);
			}
		}
		if (kind == "dir")
		{
			install_reporter<Quiet>();
			switch (ty)
			{
			case 1: return src == 0 ? AnyPtr{std::make_unique<Direct<int, int>>(int(arg[0]))}
									: AnyPtr{std::make_unique<Direct<const int&, int>>(arg[0])};
			case 2: return std::make_unique<Direct<const P&, P>>(P{arg[0]});
			case 4: return std::make_unique<Direct<double, double>>(decode<double>(arg));
			default:
			{
				const auto s = decode<std::string>(arg);
				switch (src)
				{
				case 0: return std::make_unique<Direct<const std::string&, std::string>>(std::string(s));
				case 1: return std::make_unique<Direct<std::string_view, std::string>>(std::string(s));
				case 2: return std::make_unique<Direct<std::string, std::string>>(std::string(s));
				default: return std::make_unique<Direct<const char*, std::string>>(std::string(s));
				}
			}
			}
		}
		switch (ty)
		{
		case 1: return by_kind<int>(kind, src, arg);
		case 2: return by_kind<P>(kind, src, arg);
		case 3: return by_kind<std::string>(kind, src, arg);
		case 4: return by_kind<double>(kind, src, arg);
		case 5: return by_kind<int, long long>(kind, src, arg);
		default: return nullptr;
		}
	}
}
