// Catch2's matchers as matchers
#include "mx.hpp"

#define MIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION
#include "mimic++/adapters/Catch2.hpp"

#include <catch2/matchers/catch_matchers.hpp>
#include <catch2/matchers/catch_matchers_predicate.hpp>

namespace mx
{
	void quiet();

	struct BitOf final : Catch::Matchers::MatcherGenericBase
	{
		int mask;
		explicit BitOf(int m) : mask{m} {}
		bool match(const int& x) const { return x >= 0 && x < 16 && (mask >> x & 1) != 0; }
		std::string describe() const override { return "is a bit"; }
	};

	struct OldBitOf final : Catch::Matchers::MatcherBase<int>
	{
		int mask;
		explicit OldBitOf(int m) : mask{m} {}
		bool match(const int& x) const override { return x >= 0 && x < 16 && (mask >> x & 1) != 0; }
		std::string describe() const override { return "is an old bit"; }
	};

	struct Catched final : AnyM
	{
		BitOf low;
		BitOf rest;
		mutable Mock<void(int)> mock{};
		ScopedExpectation* exp{};

		Catched(int src, int mask)
			: low{mask | 1}, rest{mask | ~1}
		{
			switch (src)
			{
			case 2: set(BitOf{mask}); break;
			case 3: set(low && rest); break;
			case 4: set(BitOf{mask} || BitOf{mask & 5}); break;
			case 5: set(OldBitOf{mask}); break;
			default: set(Catch::Matchers::Predicate<int>([mask](const int& x) { return x >= 0 && x < 16 && (mask >> x & 1) != 0; }, "has bit")); break;
			}
		}
		~Catched() override { delete exp; }

		template <typename M>
		void set(M&& m)
		{
			exp = new ScopedExpectation(mock.expect_call(std::forward<M>(m)) and expect::times(0, 100000));
		}

		int eval(const Enc& e) const override
		{
			try
			{
				mock(e[0]);
				return 1;
			}
			catch (int k)
			{
				return k == 1 ? 0 : 2;
			}
		}
		std::string describe() const override { return ""; }
		AnyPtr inv(bool, bool&) override { return nullptr; }
		AnyPtr dup(bool, bool&) override { return nullptr; }
	};

	AnyPtr make_catch(int src, int mask)
	{
		quiet();
		return std::make_unique<Catched>(src, mask);
	}

	struct ElEv
	{
		std::string operand{};

		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			std::vector<int> x(e.begin(), e.end());
			std::list<int> y(e.begin(), e.end());
			int acc = -1;
			join(acc, both(m, x, [&] { return x == e; }));
			join(acc, both(m, y, [&] { return std::ranges::equal(y, e); }));
			return acc;
		}
	};

	AnyPtr catch_elements(const std::string& kind, int k)
	{
		if (kind == "each")
			return box(matches::range::each_element(BitOf{k}), ElEv{"is a bit"});
		return box(matches::range::any_element(OldBitOf{k}), ElEv{"is an old bit"});
	}
}
