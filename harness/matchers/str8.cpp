#include "usr.hpp"

namespace mx
{
	namespace
	{
		std::vector<UChar> chars(const Enc& e)
		{
			std::vector<UChar> r{};
			for (int c : e)
				r.push_back({c});
			return r;
		}

		struct UTextEv
		{
			std::string operand{};

			template <typename M>
			int eval(const M& m, const Enc& e) const
			{
				UText u{chars(e)};
				int acc = -1;
				join(acc, both(m, u, [&] { return u == UText{chars(e)}; }));
				return acc;
			}
		};

		template <typename Make>
		AnyPtr by_src(int src, const Enc& arg, Make&& mk)
		{
			const UTextEv ev{std::string{mimicpp::print(UText{chars(arg)})}};
			switch (src)
			{
			case 0: return box(mk(UText{chars(arg)}), ev);
			case 1:
			{
				UText s{chars(arg)};
				auto m = mk(s);
				s = UText{std::vector<UChar>(40)};
				return box(std::move(m), ev);
			}
			default:
			{
				const UText s{chars(arg)};
				return box(mk(s), ev);
			}
			}
		}

		template <typename... Ci>
		AnyPtr make(const std::string& kind, int src, const Enc& arg, Ci... ci)
		{
			if (kind == "eq")
				return by_src(src, arg, [&](auto&& p) { return matches::str::eq(std::forward<decltype(p)>(p), ci...); });
			if (kind == "starts")
				return by_src(src, arg, [&](auto&& p) { return matches::str::starts_with(std::forward<decltype(p)>(p), ci...); });
			if (kind == "ends")
				return by_src(src, arg, [&](auto&& p) { return matches::str::ends_with(std::forward<decltype(p)>(p), ci...); });
			if (kind == "contains")
				return by_src(src, arg, [&](auto&& p) { return matches::str::contains(std::forward<decltype(p)>(p), ci...); });
			return nullptr;
		}
	}

	AnyPtr str_utext(const std::string& kind, int ci, int src, const Enc& arg)
	{
		return ci ? make(kind, src, arg, case_insensitive) : make(kind, src, arg);
	}
}
