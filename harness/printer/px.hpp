// Values of many types, built from a stream of numbers, dumped as a tree and printed by the library (see spec/Printer.tla).
#pragma once

#include "mimic++/mimic++.hpp"

#include <array>
#include <climits>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <filesystem>
#ifdef MIMICPP_CONFIG_USE_FMT
	#include <fmt/format.h>
	#define PX_FORMAT fmt
#else
	#include <format>
	#define PX_FORMAT std
#endif
#include <forward_list>
#include <fstream>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace px
{
	// every byte that would need escaping is written as %xx, in trees and in texts alike
	inline std::string enc(std::string_view s)
	{
		std::string r{};
		for (const char c : s)
		{
			const auto u = static_cast<unsigned char>(c);
			if (u < 0x20 || u >= 0x7f || c == '%' || c == '"' || c == '\\')
			{
				char b[8];
				std::snprintf(b, sizeof b, "%%%02x", u);
				r += b;
			}
			else
				r += c;
		}
		return r;
	}
	inline std::string q(std::string_view s) { return "\"" + enc(s) + "\""; }
	inline std::string node(const char* k, const std::string& x) { return std::string{"[\""} + k + "\"," + x + "]"; }
	inline std::string num(const std::string& s) { return node("n", q(s)); }

	struct In
	{
		std::vector<int> v{};
		std::size_t i{};
		int operator ()() { return i < v.size() ? v[i++] : 0; }
		int upTo(int n) { return static_cast<int>(static_cast<unsigned>((*this)()) % static_cast<unsigned>(n)); }
	};

	template <typename T>
	struct V;

	template <typename T>
	std::string dump(const T& x) { return V<std::remove_cvref_t<T>>::dump(x); }

	template <typename R>
	std::string dumpAll(const R& r)
	{
		std::string s{};
		for (const auto& e : r)
			s += (s.empty() ? "" : ",") + dump(e);
		return "[" + s + "]";
	}

	inline constexpr int intTab[]{0, 1, -1, 7, 42, -300, INT_MAX, INT_MIN};
	template <>
	struct V<int>
	{
		static int make(In& in) { return intTab[in.upTo(8)]; }
		static std::string dump(int x) { return num(std::to_string(x)); }
	};
	template <>
	struct V<long long>
	{
		static long long make(In& in) { constexpr long long t[]{0, -1, LLONG_MAX, LLONG_MIN}; return t[in.upTo(4)]; }
		static std::string dump(long long x) { return num(std::to_string(x)); }
	};
	template <>
	struct V<unsigned char>
	{
		static unsigned char make(In& in) { constexpr unsigned char t[]{0, 65, 255, 10}; return t[in.upTo(4)]; }
		static std::string dump(unsigned char x) { return num(std::to_string(x)); }
	};
	template <>
	struct V<bool>
	{
		static bool make(In& in) { return in.upTo(2) != 0; }
		static std::string dump(bool x) { return num(x ? "true" : "false"); }
	};
	inline constexpr char charTab[]{'a', 'b', '"', '\0', '%', '{', '\n', '\x80', ' ', '}', '\\', '\t'};
	template <>
	struct V<char>
	{
		static char make(In& in) { return charTab[in.upTo(12)]; }
		static std::string dump(char x) { return num(std::string(1, x)); }
	};
	template <>
	struct V<double>
	{
		static double make(In& in) { constexpr double t[]{0, 0.5, -1.5, 1024, 3.25}; return t[in.upTo(5)]; }
		static std::string dump(double x)
		{
			char b[40];
			std::snprintf(b, sizeof b, "%g", x);
			return num(b);
		}
	};

	// strings.  codes of a character
	template <typename C>
	C toChar(int k)
	{
		if constexpr (std::same_as<C, char>)
			return charTab[static_cast<unsigned>(k) % 12];
		else
		{
			constexpr std::uint32_t t[]{0x61, 0x62, 0x7f, 0xff, 0x0a, 0x09, 0x100, 0xfffe, 0x10ffff, 0x80};
			return static_cast<C>(t[static_cast<unsigned>(k) % 10]);
		}
	}
	template <typename C>
	std::string dumpStr(std::basic_string_view<C> s)
	{
		if constexpr (std::same_as<C, char>)
			return node("s", q(s));
		else
		{
			std::string r{};
			for (const C c : s)
			{
				const auto u = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<C>>(c));
				r += (r.empty() ? "" : ",") + std::to_string(u);
			}
			const char* p = std::same_as<C, wchar_t> ? "L" : std::same_as<C, char8_t> ? "u8" : std::same_as<C, char16_t> ? "u" : std::same_as<C, char32_t> ? "U" : "";
			return node("w", q(p) + ",[" + r + "]");
		}
	}
	template <typename C>
	std::basic_string<C> makeStr(In& in, bool nul)
	{
		int n = in.upTo(6);
		if (n == 5)
			n = 700;
		std::basic_string<C> s{};
		const int k = in();
		for (int i = 0; i < n; ++i)
		{
			C c = toChar<C>(n > 5 ? k + i : (i == 0 ? k : in()));
			if (c == C{} && !nul)
				c = toChar<C>(0);
			s += c;
		}
		return s;
	}
	template <typename C>
	struct V<std::basic_string<C>>
	{
		static std::basic_string<C> make(In& in) { return makeStr<C>(in, true); }
		static std::string dump(const std::basic_string<C>& s) { return dumpStr<C>(s); }
	};

	// owners of what views and pointers refer to
	template <typename T>
	T& keep(T x)
	{
		static std::deque<T> all{};
		if (all.size() > 500)
			all.pop_front();
		all.push_back(std::move(x));
		return all.back();
	}
	template <typename C>
	struct V<std::basic_string_view<C>>
	{
		static std::basic_string_view<C> make(In& in) { return keep(makeStr<C>(in, true)); }
		static std::string dump(std::basic_string_view<C> s) { return dumpStr<C>(s); }
	};
	template <typename P>
	std::string dumpPtr(P p)
	{
		const auto a = std::bit_cast<std::uintptr_t>(p);
		std::string r{};
		for (int i = 3; i >= 0; --i)
			r += (i == 3 ? "" : ",") + std::to_string((a >> (16 * i)) & 0xffff);
		return node("p", "[" + r + "]");
	}
	template <typename C>
	inline constexpr bool isChar = std::same_as<C, char> || std::same_as<C, wchar_t> || std::same_as<C, char8_t> || std::same_as<C, char16_t> || std::same_as<C, char32_t>;
	template <typename T>
	concept CharPtr = std::is_pointer_v<T> && isChar<std::remove_cv_t<std::remove_pointer_t<T>>>;
	template <CharPtr P>
	struct V<P>
	{
		using C = std::remove_cv_t<std::remove_pointer_t<P>>;
		static P make(In& in) { return in.upTo(4) == 0 ? nullptr : keep(makeStr<C>(in, false)).data(); }
		static std::string dump(P p) { return p ? dumpStr<C>(std::basic_string_view<C>{p}) : dumpPtr(p); }
	};
	template <typename P>
		requires (std::is_pointer_v<P> && !CharPtr<P>)
	struct V<P>
	{
		static P make(In& in)
		{
			constexpr std::uintptr_t t[]{0, 1, 16, 0xdeadbeef, 0x7fffffffffffffff, 0xffffffffffffffff, 0xab0000000000cdef};
			return std::bit_cast<P>(t[in.upTo(7)]);
		}
		static std::string dump(P p) { return dumpPtr(p); }
	};
	template <>
	struct V<std::nullptr_t>
	{
		static std::nullptr_t make(In&) { return nullptr; }
		static std::string dump(std::nullptr_t) { return dumpPtr<void*>(nullptr); }
	};

	template <typename T>
	struct V<std::optional<T>>
	{
		static std::optional<T> make(In& in)
		{
			if (in.upTo(2) == 0)
				return std::nullopt;
			return std::optional<T>{std::in_place, V<T>::make(in)};
		}
		static std::string dump(const std::optional<T>& x) { return node("o", x ? "[" + px::dump(*x) + "]" : "[]"); }
	};
	template <>
	struct V<std::nullopt_t>
	{
		static std::nullopt_t make(In&) { return std::nullopt; }
		static std::string dump(std::nullopt_t) { return node("o", "[]"); }
	};
	template <typename... Ts>
	struct V<std::tuple<Ts...>>
	{
		static std::tuple<Ts...> make(In& in) { return std::tuple<Ts...>{V<std::remove_const_t<Ts>>::make(in)...}; }
		static std::string dump(const std::tuple<Ts...>& t)
		{
			std::string s{};
			std::apply([&](const auto&... e) { ((s += (s.empty() ? "" : ",") + px::dump(e)), ...); }, t);
			return node("t", "[" + s + "]");
		}
	};
	template <typename A, typename B>
	struct V<std::pair<A, B>>
	{
		static std::pair<A, B> make(In& in)
		{
			auto a = V<std::remove_const_t<A>>::make(in);
			return std::pair<A, B>{std::move(a), V<B>::make(in)};
		}
		static std::string dump(const std::pair<A, B>& p) { return node("t", "[" + px::dump(p.first) + "," + px::dump(p.second) + "]"); }
	};
	template <typename T, std::size_t n>
	struct V<std::array<T, n>>
	{
		static std::array<T, n> make(In& in)
		{
			std::array<T, n> a{};
			for (auto& e : a)
				e = V<T>::make(in);
			return a;
		}
		static std::string dump(const std::array<T, n>& a) { return node("t", dumpAll(a)); }
	};

	template <typename T>
	concept Container = requires(T t, typename T::value_type x) { typename T::allocator_type; t.insert(t.end(), std::move(x)); } && !requires { typename T::traits_type; };
	template <Container T>
	struct V<T>
	{
		static T make(In& in)
		{
			T r{};
			const int n = in.upTo(4);
			for (int i = 0; i < n; ++i)
				r.insert(r.end(), V<typename T::value_type>::make(in));
			return r;
		}
		static std::string dump(const T& r) { return node("r", dumpAll(r)); }
	};
	template <typename T>
	struct V<std::forward_list<T>>
	{
		static std::forward_list<T> make(In& in)
		{
			std::forward_list<T> r{};
			const int n = in.upTo(4);
			for (int i = 0; i < n; ++i)
				r.push_front(V<T>::make(in));
			return r;
		}
		static std::string dump(const std::forward_list<T>& r) { return node("r", dumpAll(r)); }
	};
	template <typename T>
	struct V<std::span<T>>
	{
		static std::span<T> make(In& in)
		{
			auto& o = keep(V<std::vector<std::remove_const_t<T>>>::make(in));
			return std::span<T>{o};
		}
		static std::string dump(std::span<T> r) { return node("r", dumpAll(r)); }
	};

	// users' types
	struct Printed { int v{}; auto operator <=>(const Printed&) const = default; };   // with a custom printer
	struct Formatted { int v{}; };                   // formattable
	struct Nothing { int v{}; };                     // neither
	enum class Enum { a, b };
	struct PrintedRange : std::vector<int> {};       // a range with a custom printer
	struct FormattedRange : std::vector<int> {};     // a formattable range
	struct PrintedPair : std::pair<int, int> {};     // a tuple with a custom printer
	struct PrintedCopy { std::string s{}; auto operator <=>(const PrintedCopy&) const = default; };   // the custom printer takes a copy

	template <>
	struct V<Printed>
	{
		static Printed make(In& in) { return {V<int>::make(in)}; }
		static std::string dump(const Printed& x) { return node("u", q(std::to_string(x.v))); }
	};
	template <>
	struct V<Formatted>
	{
		static Formatted make(In& in) { return {V<int>::make(in)}; }
		static std::string dump(const Formatted& x) { return node("f", q(std::to_string(x.v))); }
	};
	template <>
	struct V<Nothing>
	{
		static Nothing make(In& in) { return {V<int>::make(in)}; }
		static std::string dump(const Nothing& x) { return node("?", q(std::to_string(x.v))); }
	};
	template <>
	struct V<Enum>
	{
		static Enum make(In& in) { return static_cast<Enum>(in.upTo(3)); }
		static std::string dump(Enum x) { return node("?", q(std::to_string(static_cast<int>(x)))); }
	};
	template <>
	struct V<PrintedRange>
	{
		static PrintedRange make(In& in) { return {V<std::vector<int>>::make(in)}; }
		static std::string dump(const PrintedRange& x) { return node("u", q(std::to_string(x.size()))); }
	};
	template <>
	struct V<FormattedRange>
	{
		static FormattedRange make(In& in) { return {V<std::vector<int>>::make(in)}; }
		static std::string dump(const FormattedRange& x) { return node("r", dumpAll(x)); }
	};
	template <>
	struct V<PrintedPair>
	{
		static PrintedPair make(In& in) { return {V<std::pair<int, int>>::make(in)}; }
		static std::string dump(const PrintedPair& x) { return node("u", q(std::to_string(x.first))); }
	};

	template <>
	struct V<PrintedCopy>
	{
		static PrintedCopy make(In& in) { return {V<std::string>::make(in)}; }
		static std::string dump(const PrintedCopy& x) { return node("u", q(x.s)); }
	};
	template <>
	struct V<const int&>
	{
		static const int& make(In& in) { return keep(V<int>::make(in)); }
	};
	template <>
	struct V<std::string&>
	{
		static std::string& make(In& in) { return keep(V<std::string>::make(in)); }
	};

	// opaque types of the standard library
	template <typename T>
	struct V<std::unique_ptr<T>>
	{
		static std::unique_ptr<T> make(In& in) { return in.upTo(2) ? std::make_unique<T>(V<T>::make(in)) : nullptr; }
		static std::string dump(const std::unique_ptr<T>& x) { return node("?", x ? px::dump(*x) : "0"); }
	};
	template <typename A, typename B>
	struct V<std::variant<A, B>>
	{
		static std::variant<A, B> make(In& in)
		{
			if (in.upTo(2))
				return V<A>::make(in);
			return V<B>::make(in);
		}
		static std::string dump(const std::variant<A, B>& x) { return node("?", std::visit([](const auto& e) { return px::dump(e); }, x)); }
	};
	template <>
	struct V<std::filesystem::path>
	{
		static std::filesystem::path make(In& in)
		{
			constexpr const char* t[]{"", "a", "/", "a/b", "/usr/../x"};
			return t[in.upTo(5)];
		}
		static std::string dump(const std::filesystem::path& x) { return node("?", q(x.string())); }
	};
	template <>
	struct V<mimicpp::ValueCategory>
	{
		static mimicpp::ValueCategory make(In& in)
		{
			using enum mimicpp::ValueCategory;
			constexpr mimicpp::ValueCategory t[]{lvalue, rvalue, any};
			return t[in.upTo(3)];
		}
		static std::string dump(mimicpp::ValueCategory x)
		{
			return node("cat", x == mimicpp::ValueCategory::lvalue ? "1" : x == mimicpp::ValueCategory::rvalue ? "2" : "3");
		}
	};
	template <>
	struct V<mimicpp::Constness>
	{
		static mimicpp::Constness make(In& in)
		{
			using enum mimicpp::Constness;
			constexpr mimicpp::Constness t[]{non_const, as_const, any};
			return t[in.upTo(3)];
		}
		static std::string dump(mimicpp::Constness x)
		{
			return node("cst", x == mimicpp::Constness::non_const ? "1" : x == mimicpp::Constness::as_const ? "2" : "3");
		}
	};
	template <>
	struct V<std::source_location>
	{
		static std::source_location make(In& in)
		{
			switch (in.upTo(3))
			{
			case 0: return std::source_location::current();
			case 1:
				return std::source_location::current();
			default: return {};
			}
		}
		static std::string dump(const std::source_location& l)
		{
			return node("l", q(l.file_name()) + "," + q(std::to_string(l.line())) + "," + q(std::to_string(l.column())) + "," + q(l.function_name()));
		}
	};

	// users' strings
	struct MyString { std::string s{}; };
	enum class MyChar : std::uint16_t {};     // printed by a custom printer
	enum class RawChar : std::uint8_t {};     // printed as numbers
	template <typename C>
	struct CharString { std::vector<C> s{}; };
	template <>
	struct V<MyString>
	{
		static MyString make(In& in) { return {V<std::string>::make(in)}; }
		static std::string dump(const MyString& x) { return dumpStr<char>(x.s); }
	};
	template <typename C>
	struct V<CharString<C>>
	{
		static CharString<C> make(In& in)
		{
			CharString<C> r{};
			const int n = in.upTo(4);
			for (int i = 0; i < n; ++i)
				r.s.push_back(static_cast<C>(in.upTo(200)));
			return r;
		}
		static std::string dump(const CharString<C>& x)
		{
			std::string r{};
			for (const C c : x.s)
				r += (r.empty() ? "" : ",") + std::to_string(static_cast<int>(c));
			return std::same_as<C, MyChar> ? node("c", "[" + r + "]") : node("w", "\"\",[" + r + "]");
		}
	};

	// one script line
	inline std::ofstream out{};
	void event(int t, int via, const std::string& before, const std::string& text, const std::string& after);

	// printing, by different ways
	template <typename T>
	void go(int t, int via, T& x, std::string (*d)(const T&))
	{
		using namespace mimicpp;
		const std::string before = d(x);
		std::string text{};
		switch (via)
		{
		case 0: text = print(x); break;
		case 1: text = print(std::as_const(x)); break;
		case 2: text = print(std::move(x)); break;
		case 3:
			{
				std::ostringstream s{};
				s << "<";
				auto it = print(std::ostreambuf_iterator{s}, std::as_const(x));
				*it = '>';
				text = s.str();
				if (text.size() < 2 || text.front() != '<' || text.back() != '>')
					text = "bad frame " + text;
				else
					text = text.substr(1, text.size() - 2);
				break;
			}
		case 4:
			{
				std::vector<char> v{'<'};
				auto it = print(std::back_inserter(v), x);
				*it = '>';
				text.assign(v.begin() + 1, v.end() - 1);
				break;
			}
		default: std::_Exit(3);
		}
		event(t, via, before, text, d(x));
	}

	// as an argument of a call
	extern std::string reported;
	template <typename T>
	void call(int t, T& x, std::string (*d)(const T&))
	{
		const std::string before = d(x);
		mimicpp::Mock<void(const T&)> mock{};
		mimicpp::ScopedExpectation e{mock.expect_call(mimicpp::matches::_)};
		mock(x);
		event(t, 5, before, reported, d(x));
	}

	template <typename T>
	std::string dumpOf(const T& x) { return V<T>::dump(x); }

	template <typename T>
	void one(int t, int via, In& in)
	{
		T x = V<T>::make(in);
		if (via == 5)
			call<T>(t, x, &dumpOf<T>);
		else
			go<T>(t, via, x, &dumpOf<T>);
	}

	bool run1(int t, int via, In& in);
	bool run2(int t, int via, In& in);
	bool run3(int t, int via, In& in);
	bool run4(int t, int via, In& in);
	bool run5(int t, int via, In& in);
}

template <>
struct PX_FORMAT::formatter<px::Formatted, char> : PX_FORMAT::formatter<std::string_view, char>
{
	auto format(const px::Formatted& x, auto& ctx) const { return PX_FORMAT::formatter<std::string_view, char>::format("F" + std::to_string(x.v), ctx); }
};
template <>
struct PX_FORMAT::formatter<px::FormattedRange, char> : PX_FORMAT::formatter<std::string_view, char>
{
	auto format(const px::FormattedRange&, auto& ctx) const { return PX_FORMAT::formatter<std::string_view, char>::format("FR", ctx); }
};

template <>
struct mimicpp::custom::Printer<px::Printed>
{
	template <mimicpp::print_iterator O>
	static O print(O o, const px::Printed& x) { return mimicpp::format::format_to(std::move(o), "U<{}>", x.v); }
};
template <>
struct mimicpp::custom::Printer<px::PrintedRange>
{
	template <mimicpp::print_iterator O>
	static O print(O o, const px::PrintedRange& x) { return mimicpp::format::format_to(std::move(o), "U<{}>", x.size()); }
};
template <>
struct mimicpp::custom::Printer<px::PrintedPair>
{
	template <mimicpp::print_iterator O>
	static O print(O o, const px::PrintedPair& x) { return mimicpp::format::format_to(std::move(o), "U<{}>", x.first); }
};
template <>
struct mimicpp::custom::Printer<px::PrintedCopy>
{
	template <mimicpp::print_iterator O>
	static O print(O o, px::PrintedCopy x) { return mimicpp::format::format_to(std::move(o), "U<{}>", x.s); }
};
template <>
struct std::tuple_size<px::PrintedPair> : std::integral_constant<std::size_t, 2> {};

template <>
struct mimicpp::is_character<px::MyChar> : std::true_type {};
template <>
struct mimicpp::is_character<px::RawChar> : std::true_type {};
template <>
struct mimicpp::custom::Printer<px::MyChar>
{
	template <mimicpp::print_iterator O>
	static O print(O o, const px::MyChar& x) { return mimicpp::format::format_to(std::move(o), "({})", static_cast<int>(x)); }
};
template <>
struct mimicpp::string_traits<px::MyString>
{
	using char_t = char;
	using string_t = px::MyString;
	static std::string_view view(const px::MyString& s) { return s.s; }
};
template <typename C>
struct mimicpp::string_traits<px::CharString<C>>
{
	using char_t = C;
	using string_t = px::CharString<C>;
	static std::span<const C> view(const px::CharString<C>& s) { return s.s; }
};
