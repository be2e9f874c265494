#include "mx.hpp"

namespace mx
{
	struct Mod2Eq
	{
		bool operator()(int a, int b) const { return (a & 1) == (b & 1); }
	};
	struct LtCmp
	{
		bool operator()(int a, int b) const { return a < b; }
	};
	struct Mod2Less
	{
		bool operator()(int a, int b) const { return (a & 1) < (b & 1); }
	};

	struct RngEv
	{
		std::string operand{};
		std::shared_ptr<std::vector<int>> keep{};

		template <typename C, typename M>
		static void one(int& acc, const M& m, const Enc& e)
		{
			C x(e.begin(), e.end());
			const C c = x;
			if constexpr (requires { m.matches(x); })
				join(acc, both(m, x, [&] { return x == c; }));
		}

		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			int acc = -1;
			one<std::vector<int>>(acc, m, e);
			one<std::list<int>>(acc, m, e);
			one<std::deque<int>>(acc, m, e);
			one<std::vector<short>>(acc, m, e);
			one<std::forward_list<int>>(acc, m, e);
			std::vector<int> base(e.begin(), e.end());
			std::span<int> s{base};
			join(acc, both(m, s, [&] { return base == e; }));
			views(acc, m, e);
			return acc;
		}

		// ranges that are no containers: elements made on access, ranges that can only be iterated as mutable, pairs of iterators
		template <typename M>
		static void views(int& acc, const M& m, const Enc& e)
		{
			std::vector<int> base{};
			for (const int x : e)
				base.push_back(x - 5);
			auto made = base | std::views::transform([](const int x) { return x + 5; });
			if constexpr (requires { m.matches(made); })
				join(acc, both(m, made, [&] { return std::ranges::equal(made, e); }));
			std::vector<int> more{100};
			for (const int x : e)
			{
				more.push_back(x);
				more.push_back(100);
			}
			auto few = more | std::views::filter([](const int x) { return x != 100; });
			if constexpr (requires { m.matches(few); })
				join(acc, m.matches(few) ? 1 : 0);
			std::list<int> in(e.begin(), e.end());
			in.push_front(1);
			in.push_back(2);
			std::ranges::subrange sub{std::next(in.begin()), std::prev(in.end())};
			if constexpr (requires { m.matches(sub); })
				join(acc, both(m, sub, [&] { return std::ranges::equal(sub, e); }));
		}
	};

	struct SizedEv
	{
		std::string operand{};

		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			int acc = -1;
			RngEv::one<std::vector<int>>(acc, m, e);
			RngEv::one<std::list<int>>(acc, m, e);
			RngEv::one<std::deque<int>>(acc, m, e);
			std::vector<int> base(e.begin(), e.end());
			std::span<int> s{base};
			join(acc, both(m, s, [&] { return base == e; }));
			return acc;
		}
	};

	template <typename Make>
	AnyPtr by_src(int src, const Enc& arg, Make&& mk)
	{
		auto keep = std::make_shared<std::vector<int>>(arg.begin(), arg.end());
		const RngEv ev{std::string{mimicpp::print(*keep)}, keep};
		switch (src)
		{
		case 0: return box(mk(std::vector<int>(*keep)), ev);
		case 1: return box(mk(*keep), ev);
		case 2: return box(mk(std::span<const int>(*keep)), ev);
		default: return box(mk(std::list<int>(keep->begin(), keep->end())), ev);
		}
	}
}
