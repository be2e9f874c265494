#include "px.hpp"
namespace px
{
	bool run5(int t, int via, In& in)
	{
		switch (t)
		{
		case 90: one<std::optional<bool>>(t, via, in); return true;
		case 91: one<std::optional<char>>(t, via, in); return true;
		case 92: one<std::tuple<int, bool, int, std::string, bool, char, int, bool, int, bool, bool>>(t, via, in); return true;
		case 93: one<std::array<int, 7>>(t, via, in); return true;
		case 94: one<PrintedCopy>(t, via, in); return true;
		case 95: one<std::vector<PrintedCopy>>(t, via, in); return true;
		case 96: one<std::optional<PrintedCopy>>(t, via, in); return true;
		case 97: one<std::tuple<PrintedCopy, int, PrintedCopy>>(t, via, in); return true;
		case 98: one<std::tuple<const int&, std::string&>>(t, via, in); return true;
		case 99: one<std::vector<std::unique_ptr<int>>>(t, via, in); return true;
		case 100: one<std::map<std::string, std::pair<PrintedCopy, bool>>>(t, via, in); return true;
		default: return false;
		}
	}
}
