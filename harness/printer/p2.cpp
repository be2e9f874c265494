#include "px.hpp"
namespace px
{
	bool run2(int t, int via, In& in)
	{
		switch (t)
		{
		case 21: one<int*>(t, via, in); return true;
		case 22: one<const void*>(t, via, in); return true;
		case 23: one<const double*>(t, via, in); return true;
		case 24: one<int (*)(int)>(t, via, in); return true;
		case 25: one<std::nullptr_t>(t, via, in); return true;
		case 26: one<std::unique_ptr<int>>(t, via, in); return true;
		case 27: one<std::optional<int>>(t, via, in); return true;
		case 28: one<std::optional<std::optional<int>>>(t, via, in); return true;
		case 29: one<std::optional<std::string>>(t, via, in); return true;
		case 30: one<std::nullopt_t>(t, via, in); return true;
		case 31: one<std::tuple<>>(t, via, in); return true;
		case 32: one<std::tuple<int>>(t, via, in); return true;
		case 33: one<std::tuple<int, std::string, bool>>(t, via, in); return true;
		case 34: one<std::pair<int, std::optional<int>>>(t, via, in); return true;
		case 35: one<std::array<int, 3>>(t, via, in); return true;
		case 36: one<std::array<std::string, 0>>(t, via, in); return true;
		case 37: one<std::optional<const char*>>(t, via, in); return true;
		case 38: one<std::tuple<const char*, int*>>(t, via, in); return true;
		case 39: one<std::tuple<std::tuple<>, std::pair<int, char>>>(t, via, in); return true;
		case 40: one<std::optional<std::tuple<int, double>>>(t, via, in); return true;
		default: return false;
		}
	}
}
