#include "px.hpp"
namespace px
{
	bool run1(int t, int via, In& in)
	{
		switch (t)
		{
		case 1: one<int>(t, via, in); return true;
		case 2: one<bool>(t, via, in); return true;
		case 3: one<char>(t, via, in); return true;
		case 4: one<long long>(t, via, in); return true;
		case 5: one<double>(t, via, in); return true;
		case 6: one<unsigned char>(t, via, in); return true;
		case 7: one<std::string>(t, via, in); return true;
		case 8: one<std::string_view>(t, via, in); return true;
		case 9: one<const char*>(t, via, in); return true;
		case 10: one<char*>(t, via, in); return true;
		case 11: one<std::wstring>(t, via, in); return true;
		case 12: one<std::u8string>(t, via, in); return true;
		case 13: one<std::u16string_view>(t, via, in); return true;
		case 14: one<const char32_t*>(t, via, in); return true;
		case 15: one<const wchar_t*>(t, via, in); return true;
		case 16: one<MyString>(t, via, in); return true;
		case 17: one<CharString<MyChar>>(t, via, in); return true;
		case 18: one<CharString<RawChar>>(t, via, in); return true;
		case 19: one<std::u32string>(t, via, in); return true;
		case 20: one<std::wstring_view>(t, via, in); return true;
		default: return false;
		}
	}
}
