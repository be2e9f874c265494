#include "mx.hpp"

namespace mx
{
	template <typename C>
	struct StrEv
	{
		std::string operand{};

		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			int acc = -1;
			std::basic_string<C> s{};
			bool zero = false;
			for (int c : e)
			{
				s.push_back(static_cast<C>(c));
				zero = zero || c == 0;
			}
			const auto c = s;
			join(acc, both(m, s, [&] { return s == c; }));
			std::basic_string_view<C> v{s};
			join(acc, both(m, v, [&] { return s == c && v.size() == c.size(); }));
			if (!zero)
			{
				const C* p = s.c_str();
				join(acc, both(m, p, [&] { return s == c && p == s.c_str(); }));
				if (s.size() < 16)
				{
					C a[16]{};
					std::copy(s.begin(), s.end(), a);
					const C* q = a;
					join(acc, both(m, q, [&] { return c == a; }));
				}
			}
			return acc;
		}
	};

	// keeps what a viewing pattern refers to
	template <typename C>
	struct StrKeepEv : StrEv<C>
	{
		std::shared_ptr<std::basic_string<C>> keep{};
	};

	template <typename C, typename Make>
	AnyPtr by_src(int src, const Enc& arg, Make&& mk)
	{
		auto keep = std::make_shared<std::basic_string<C>>();
		bool zero = false;
		for (int c : arg)
		{
			keep->push_back(static_cast<C>(c));
			zero = zero || c == 0;
		}
		const StrKeepEv<C> ev{{std::string{mimicpp::print(*keep)}}, keep};
		if (src == 3 && zero)
			src = 2;
		switch (src)
		{
		case 0: return box(mk(std::basic_string<C>(*keep)), ev);
		case 1:
		{
			std::basic_string<C> s{*keep};
			auto m = mk(s);
			s.assign(40, C{'q'});
			return box(std::move(m), ev);
		}
		case 2: return box(mk(std::basic_string_view<C>(*keep)), ev);
		default: return box(mk(static_cast<const C*>(keep->c_str())), ev);
		}
	}

#define MX_STR(fn, ...) \
	by_src<C>(src, arg, [](auto&& p) { return matches::str::fn(std::forward<decltype(p)>(p) __VA_OPT__(, ) __VA_ARGS__); })

	template <typename C>
	AnyPtr sensitive(const std::string& kind, int src, const Enc& arg)
	{
		if (kind == "eq")
			return MX_STR(eq);
		if (kind == "starts")
			return MX_STR(starts_with);
		if (kind == "ends")
			return MX_STR(ends_with);
		if (kind == "contains")
			return MX_STR(contains);
		return nullptr;
	}

	template <typename C>
	AnyPtr insensitive(const std::string& kind, int src, const Enc& arg)
	{
		if (kind == "eq")
			return MX_STR(eq, case_insensitive);
		if (kind == "starts")
			return MX_STR(starts_with, case_insensitive);
		if (kind == "ends")
			return MX_STR(ends_with, case_insensitive);
		if (kind == "contains")
			return MX_STR(contains, case_insensitive);
		return nullptr;
	}
}
