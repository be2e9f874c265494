// Executor for matchers: slots of matchers made by inversion, copy and move from one original; see spec/Matchers.tla.
#pragma once

#include "mimic++/mimic++.hpp"

#include <array>
#include <cmath>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <span>
#include <sstream>
#include <string>
#include <vector>

namespace mx
{
	using namespace mimicpp;
	using Enc = std::vector<int>;

	struct AnyM
	{
		virtual ~AnyM() = default;
		// 0 rejected, 1 accepted, 2 the value was altered or equivalent targets disagree
		virtual int eval(const Enc& target) const = 0;
		virtual std::string describe() const = 0;
		// null if not possible; sets moved if a copy was asked for but the matcher can only be moved
		virtual std::unique_ptr<AnyM> inv(bool move, bool& moved) = 0;
		virtual std::unique_ptr<AnyM> dup(bool move, bool& moved) = 0;
	};

	using AnyPtr = std::unique_ptr<AnyM>;

	inline constexpr int max_depth = 3;

	// replaces the printed operand by {}
	inline std::string strip(std::string s, const std::string& operand)
	{
		if (operand.empty())
			return s;
		const auto p = s.find(operand);
		return p == std::string::npos ? s : s.substr(0, p) + "{}" + s.substr(p + operand.size());
	}

	template <typename M, typename Ev, int depth>
	struct Box final : AnyM
	{
		M m;
		Ev ev;

		Box(M x, Ev e) : m(std::move(x)), ev(std::move(e)) {}

		int eval(const Enc& target) const override { return ev.eval(m, target); }
		std::string describe() const override { return strip(std::string{m.describe()}, ev.operand); }

		AnyPtr inv(bool move, bool& moved) override
		{
			if constexpr (depth < max_depth && requires(M x) { !std::move(x); })
			{
				if constexpr (requires(const M& x) { !x; })
				{
					if (!move)
					{
						auto r = !std::as_const(m);
						return std::make_unique<Box<decltype(r), Ev, depth + 1>>(std::move(r), ev);
					}
				}
				moved = true;
				auto r = !std::move(m);
				return std::make_unique<Box<decltype(r), Ev, depth + 1>>(std::move(r), ev);
			}
			else
				return nullptr;
		}

		AnyPtr dup(bool move, bool& moved) override
		{
			if constexpr (std::is_copy_constructible_v<M>)
			{
				if (!move)
					return std::make_unique<Box>(M(std::as_const(m)), ev);
			}
			moved = true;
			return std::make_unique<Box>(std::move(m), ev);
		}
	};

	template <typename Ev, typename M>
	AnyPtr box(M m, Ev ev)
	{
		return std::make_unique<Box<M, Ev, 0>>(std::move(m), std::move(ev));
	}

	// result for one target, once as mutable and once as const lvalue
	template <typename M, typename X, typename Same>
	int both(const M& m, X& x, Same&& same)
	{
		const bool a = m.matches(x);
		const bool b = m.matches(std::as_const(x));
		const bool c = m.matches(x);
		return a != b || a != c || !same() ? 2 : a ? 1 : 0;
	}

	inline void join(int& acc, int r) { acc = acc == -1 || acc == r ? r : 2; }

	struct Words
	{
		std::istringstream is;

		explicit Words(const std::string& s) : is{s} {}
		int num()
		{
			int r{};
			is >> r;
			return r;
		}
		std::string word()
		{
			std::string r{};
			is >> r;
			return r;
		}
		Enc list()
		{
			Enc r(static_cast<std::size_t>(num()));
			for (int& x : r)
				x = num();
			return r;
		}
	};

	AnyPtr make_cmp(Words& w);
}
