#include "rng.ipp"

namespace mx
{
	AnyPtr rng_unordered(int src, const std::string& cmp, const Enc& arg)
	{
		if (cmp == "eq")
			return by_src(src, arg, [](auto&& r) { return matches::range::unordered_eq(std::forward<decltype(r)>(r)); });
		return by_src(src, arg, [](auto&& r) { return matches::range::unordered_eq(std::forward<decltype(r)>(r), Mod2Eq{}); });
	}

	AnyPtr rng_plain(const std::string& kind, int src, const std::string& cmp, const Enc& arg)
	{
		if (kind == "sorted")
		{
			if (cmp == "less")
				return src % 2 ? box(matches::range::is_sorted(), RngEv{}) : box(matches::range::is_sorted(std::less<>{}), RngEv{});
			if (cmp == "greater")
				return box(matches::range::is_sorted(std::ranges::greater{}), RngEv{});
			return box(matches::range::is_sorted(Mod2Less{}), RngEv{});
		}
		if (kind == "empty")
			return box(matches::range::is_empty(), RngEv{});
		// size
		const SizedEv ev{std::to_string(arg[0])};
		if (src % 2 || arg[0] < 0)
			return box(matches::range::has_size(arg[0]), ev);
		return box(matches::range::has_size(static_cast<std::size_t>(arg[0])), ev);
	}
}
