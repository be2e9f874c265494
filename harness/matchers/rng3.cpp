#include "rng.ipp"

namespace mx
{
	// matchers of the user's own for elements
	struct OwnEl
	{
		int mask{};
		bool matches(const int& x) const { return x >= 0 && x < 16 && (mask >> x & 1) != 0; }
		std::string_view describe() const { return "is my own"; }
	};
	struct HookedEl
	{
		int mask{};
	};
}
template <>
struct mimicpp::custom::matcher_traits<mx::HookedEl>
{
	static bool matches(const mx::HookedEl& m, const int& x) { return x >= 0 && x < 16 && (m.mask >> x & 1) != 0; }
	static std::string_view describe(const mx::HookedEl&) { return "is hooked"; }
};
namespace mx
{
	template <typename Wrap>
	AnyPtr inner_kinds(const std::string& inner, int k, Wrap&& wrap)
	{
		const auto go = [&](auto m) {
			const RngEv ev{std::string{m.describe()}};
			return box(wrap(std::move(m)), ev);
		};
		if (inner == "eq")
			return go(matches::eq(k));
		if (inner == "lt")
			return go(matches::lt(k));
		if (inner == "ge")
			return go(!matches::lt(k));
		if (inner == "any")
			return go(matches::_);
		if (inner == "own")
			return box(wrap(OwnEl{k}), RngEv{"is my own"});
		if (inner == "hook")
			return box(wrap(HookedEl{k}), RngEv{"is hooked"});
		return go(matches::predicate([k](const int& x) { return x >= 0 && x < 16 && (k >> x & 1) != 0; }));
	}

	struct NestEv
	{
		std::string operand{};

		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			// -99 closes one inner range
			std::vector<std::vector<int>> x{};
			std::vector<int> cur{};
			for (int v : e)
			{
				if (v == -99)
				{
					x.push_back(cur);
					cur.clear();
				}
				else
					cur.push_back(v);
			}
			const auto c = x;
			return both(m, x, [&] { return x == c; });
		}
	};

	AnyPtr catch_elements(const std::string& kind, int k);

	// elements as instances: all ranges are the first ones of the same objects
	struct InstElEv
	{
		std::string operand{};
		std::shared_ptr<std::array<int, 80>> objs{};

		template <typename M>
		int eval(const M& m, const Enc& e) const
		{
			std::span<int> s{objs->data(), e.size()};
			int acc = -1;
			join(acc, both(m, s, [&] { return s.size() == e.size(); }));
			std::list<std::reference_wrapper<int>> refs(s.begin(), s.end());
			auto view = refs | std::views::transform([](std::reference_wrapper<int> x) -> int& { return x.get(); });
			join(acc, both(m, view, [&] { return refs.size() == e.size(); }));
			return acc;
		}
	};

	AnyPtr rng_elements(const std::string& kind, const std::string& inner, int k)
	{
		if (inner == "catch")
			return catch_elements(kind, k);
		if (inner == "inst")
		{
			auto objs = std::make_shared<std::array<int, 80>>();
			auto m = matches::instance((*objs)[static_cast<std::size_t>(k)]);
			const InstElEv ev{std::string{m.describe()}, objs};
			if (kind == "each")
				return box(matches::range::each_element(std::move(m)), ev);
			return box(matches::range::any_element(std::move(m)), ev);
		}
		if (kind == "each")
			return inner_kinds(inner, k, [](auto m) { return matches::range::each_element(std::move(m)); });
		return inner_kinds(inner, k, [](auto m) { return matches::range::any_element(std::move(m)); });
	}

	AnyPtr rng_nested(const std::string& kind, const std::string& inner, int k)
	{
		const auto go = [&](auto in) -> AnyPtr {
			const NestEv ev{std::string{in.describe()}};
			if (kind == "each2")
				return box(matches::range::each_element(std::move(in)), ev);
			return box(matches::range::any_element(std::move(in)), ev);
		};
		if (inner == "each")
			return go(matches::range::each_element(matches::lt(k)));
		if (inner == "any")
			return go(matches::range::any_element(matches::lt(k)));
		return go(!matches::range::each_element(matches::lt(k)));
	}
}
