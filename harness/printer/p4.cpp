#include "px.hpp"

namespace px
{
	namespace
	{
		// arrays and views are dumped from what they were made of
		template <typename T>
		std::string dumpArr(const T& a)
		{
			std::string s{};
			for (const auto& e : a)
			{
				if constexpr (std::is_array_v<std::remove_cvref_t<decltype(e)>>)
					s += (s.empty() ? "" : ",") + dumpArr(e);
				else
					s += (s.empty() ? "" : ",") + dump(e);
			}
			return node("r", "[" + s + "]");
		}
		template <typename T>
		std::string dumpCopy(const T& v)
		{
			auto c = v;
			std::string s{};
			for (const auto& e : c)
				s += (s.empty() ? "" : ",") + dump(e);
			return node("r", "[" + s + "]");
		}
		std::string dumpOpaque(const std::ranges::istream_view<char>&) { return node("?", "0"); }

		template <typename T>
		void array(int t, int via, In& in)
		{
			T a{};
			for (auto& e : a)
				e = V<std::remove_reference_t<decltype(e)>>::make(in);
			if (via == 5)
				call<T>(t, a, &dumpArr<T>);
			else
				go<T>(t, via, a, &dumpArr<T>);
		}

		std::string dumpChars(const char (&a)[4]) { return dumpStr<char>(a); }
		std::string dumpChars(const wchar_t (&a)[3]) { return dumpStr<wchar_t>(a); }
	}

	bool run4(int t, int via, In& in)
	{
		switch (t)
		{
		case 56: one<Printed>(t, via, in); return true;
		case 57: one<std::vector<Printed>>(t, via, in); return true;
		case 58: one<std::optional<Printed>>(t, via, in); return true;
		case 59: one<PrintedRange>(t, via, in); return true;
		case 60: one<PrintedPair>(t, via, in); return true;
		case 61: one<Formatted>(t, via, in); return true;
		case 62: one<std::vector<Formatted>>(t, via, in); return true;
		case 63: one<FormattedRange>(t, via, in); return true;
		case 64: one<std::optional<Formatted>>(t, via, in); return true;
		case 65: one<Nothing>(t, via, in); return true;
		case 66: one<std::vector<Nothing>>(t, via, in); return true;
		case 67: one<std::tuple<Nothing, int>>(t, via, in); return true;
		case 68: one<std::pair<Nothing, Printed>>(t, via, in); return true;
		case 69: one<std::optional<Nothing>>(t, via, in); return true;
		case 70: one<Enum>(t, via, in); return true;
		case 71: one<std::filesystem::path>(t, via, in); return true;
		case 72: one<mimicpp::ValueCategory>(t, via, in); return true;
		case 73: one<mimicpp::Constness>(t, via, in); return true;
		case 74: one<std::source_location>(t, via, in); return true;
		case 75: one<std::optional<std::source_location>>(t, via, in); return true;
		case 76: one<std::variant<int, std::string>>(t, via, in); return true;
		case 77: one<std::map<Printed, std::vector<Nothing>>>(t, via, in); return true;
		case 78: one<std::vector<PrintedRange>>(t, via, in); return true;
		case 79: one<std::vector<std::filesystem::path>>(t, via, in); return true;
		case 80: array<int[3]>(t, via, in); return true;
		case 81: array<std::string[2]>(t, via, in); return true;
		case 82:
			{
				int a[2][2]{{V<int>::make(in), V<int>::make(in)}, {V<int>::make(in), V<int>::make(in)}};
				go<int[2][2]>(t, via % 5, a, &dumpArr<int[2][2]>);
				return true;
			}
		case 83:
			{
				char a[4]{};
				const auto s = makeStr<char>(in, false).substr(0, 3);
				s.copy(a, s.size());
				if (via == 5)
					call<char[4]>(t, a, &dumpChars);
				else
					go<char[4]>(t, via, a, &dumpChars);
				return true;
			}
		case 84:
			{
				wchar_t a[3]{};
				const auto s = makeStr<wchar_t>(in, false).substr(0, 2);
				s.copy(a, s.size());
				go<wchar_t[3]>(t, via % 5, a, &dumpChars);
				return true;
			}
		case 85:
			{
				auto v = std::views::iota(0, in.upTo(4));
				go(t, via % 5, v, &dumpCopy<decltype(v)>);
				return true;
			}
		case 86: // can not be iterated when const
			{
				auto v = keep(V<std::vector<int>>::make(in)) | std::views::filter([](int x) { return x > 0; });
				constexpr int ways[]{0, 2, 4};
				go(t, ways[via % 3], v, &dumpCopy<decltype(v)>);
				return true;
			}
		case 87: // single pass
			{
				std::istringstream s{"abc"};
				std::ranges::istream_view<char> v{s};
				constexpr int ways[]{0, 4};
				go(t, ways[via % 2], v, &dumpOpaque);
				return true;
			}
		case 88:
			{
				auto v = keep(V<std::vector<int>>::make(in)) | std::views::transform([](int x) { return std::to_string(x); });
				go(t, via % 5, v, &dumpCopy<decltype(v)>);
				return true;
			}
		case 89:
			{
				auto v = keep(V<std::vector<std::string>>::make(in)) | std::views::reverse;
				go(t, via % 5, v, &dumpCopy<decltype(v)>);
				return true;
			}
		default: return false;
		}
	}
}
