#include "usr.hpp"

namespace mx
{
	namespace
	{
		struct UStringEv
		{
			std::string operand{};
			std::shared_ptr<std::string> keep{};

			template <typename M>
			int eval(const M& m, const Enc& e) const
			{
				int acc = -1;
				std::string s{};
				for (int c : e)
					s.push_back(static_cast<char>(c));
				const std::string c{s};
				UString u{s};
				join(acc, both(m, u, [&] { return u == UString{c}; }));
				join(acc, both(m, s, [&] { return s == c; }));
				std::string_view v{s};
				join(acc, both(m, v, [&] { return s == c && v.size() == c.size(); }));
				return acc;
			}
		};

		template <typename Make>
		AnyPtr by_src(int src, const Enc& arg, Make&& mk)
		{
			auto keep = std::make_shared<std::string>();
			for (int c : arg)
				keep->push_back(static_cast<char>(c));
			const UStringEv ev{std::string{mimicpp::print(UString{*keep})}, keep};
			switch (src)
			{
			case 0: return box(mk(UString{*keep}), ev);
			case 1:
			{
				UString s{*keep};
				auto m = mk(s);
				s = UString{std::string(40, 'q')};
				return box(std::move(m), ev);
			}
			case 2:
			{
				const UString s{*keep};
				return box(mk(s), ev);
			}
			default: return box(mk(*keep), ev);
			}
		}

		template <typename... Ci>
		AnyPtr make(const std::string& kind, int src, const Enc& arg, Ci... ci)
		{
			if (kind == "eq")
				return by_src(src, arg, [&](auto&& p) { return matches::str::eq(std::forward<decltype(p)>(p), ci...); });
			if (kind == "starts")
				return by_src(src, arg, [&](auto&& p) { return matches::str::starts_with(std::forward<decltype(p)>(p), ci...); });
			if (kind == "ends")
				return by_src(src, arg, [&](auto&& p) { return matches::str::ends_with(std::forward<decltype(p)>(p), ci...); });
			if (kind == "contains")
				return by_src(src, arg, [&](auto&& p) { return matches::str::contains(std::forward<decltype(p)>(p), ci...); });
			return nullptr;
		}
	}

	AnyPtr str_ustring(const std::string& kind, int ci, int src, const Enc& arg)
	{
		return ci ? make(kind, src, arg, case_insensitive) : make(kind, src, arg);
	}
}
