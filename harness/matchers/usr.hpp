// A string type and a character type of the user.
#pragma once
#include "mx.hpp"

namespace mx
{
	class UString
	{
	public:
		explicit UString(std::string s) : m_S{std::move(s)} {}
		[[nodiscard]] std::string_view chars() const noexcept { return m_S; }
		bool operator ==(const UString&) const = default;

	private:
		std::string m_S;
	};

	struct UChar
	{
		int v{};
		bool operator ==(const UChar&) const = default;
	};

	class UText
	{
	public:
		explicit UText(std::vector<UChar> s) : m_S{std::move(s)} {}
		[[nodiscard]] std::span<const UChar> chars() const noexcept { return m_S; }
		bool operator ==(const UText&) const = default;

	private:
		std::vector<UChar> m_S;
	};
}

template <>
struct mimicpp::string_traits<mx::UString>
{
	using char_t = char;
	using view_t = std::string_view;

	[[nodiscard]]
	static view_t view(const mx::UString& s) noexcept
	{
		return s.chars();
	}
};

template <>
struct mimicpp::is_character<mx::UChar>
	: public std::true_type
{
};

template <>
struct mimicpp::string_traits<mx::UText>
{
	using char_t = mx::UChar;
	using view_t = std::span<const mx::UChar>;

	[[nodiscard]]
	static view_t view(const mx::UText& s) noexcept
	{
		return s.chars();
	}
};

// folds a character to none, one or two; see FoldChar in Matchers.tla
template <>
struct mimicpp::string_case_fold_converter<mx::UChar>
{
	[[nodiscard]]
	std::vector<mx::UChar> operator ()(std::span<const mx::UChar> view) const
	{
		std::vector<mx::UChar> r{};
		for (const auto [c] : view)
		{
			if (c == 0)
				continue;
			const bool lower = 97 <= c && c <= 122;
			r.push_back({lower ? c - 32 : c});
			if (lower && c % 2 == 0)
				r.push_back({c - 32});
		}
		return r;
	}
};

template <>
struct mimicpp::custom::Printer<mx::UChar>
{
	template <mimicpp::print_iterator OutIter>
	static OutIter print(OutIter out, const mx::UChar c)
	{
		return mimicpp::format::format_to(std::move(out), "<{}>", c.v);
	}
};
