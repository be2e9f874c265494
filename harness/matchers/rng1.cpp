#include "rng.ipp"

namespace mx
{
	AnyPtr rng_eq(int src, const std::string& cmp, const Enc& arg)
	{
		if (cmp == "eq")
			return by_src(src, arg, [](auto&& r) { return matches::range::eq(std::forward<decltype(r)>(r)); });
		if (cmp == "mod")
			return by_src(src, arg, [](auto&& r) { return matches::range::eq(std::forward<decltype(r)>(r), Mod2Eq{}); });
		return by_src(src, arg, [](auto&& r) { return matches::range::eq(std::forward<decltype(r)>(r), LtCmp{}); });
	}
}
