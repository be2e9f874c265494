#include "px.hpp"
namespace px
{
	bool run3(int t, int via, In& in)
	{
		switch (t)
		{
		case 41: one<std::vector<int>>(t, via, in); return true;
		case 42: one<std::vector<std::vector<int>>>(t, via, in); return true;
		case 43: one<std::list<std::string>>(t, via, in); return true;
		case 44: one<std::set<int>>(t, via, in); return true;
		case 45: one<std::map<int, std::string>>(t, via, in); return true;
		case 46: one<std::vector<std::optional<int>>>(t, via, in); return true;
		case 47: one<std::span<const int>>(t, via, in); return true;
		case 48: one<std::deque<std::tuple<int, char>>>(t, via, in); return true;
		case 49: one<std::forward_list<int*>>(t, via, in); return true;
		case 50: one<std::vector<const char*>>(t, via, in); return true;
		case 51: one<std::vector<std::map<int, std::vector<std::optional<std::string>>>>>(t, via, in); return true;
		case 52: one<std::span<std::string>>(t, via, in); return true;
		case 53: one<std::multimap<std::string, std::vector<bool*>>>(t, via, in); return true;
		case 54: one<std::vector<std::u16string>>(t, via, in); return true;
		case 55: one<std::vector<std::list<std::set<char>>>>(t, via, in); return true;
		default: return false;
		}
	}
}
