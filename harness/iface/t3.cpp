#include "mocks.hpp"

void ix::table3()
{
	IX_OV(20, , big, A, A, void, int);
	IX_OV(21, , big, A, A, void, int, int);
	IX_OV(22, , big, A, A, void, int, int, int);
	IX_OV(23, const, big, A, A, void, int);
	IX_OV(24, const, big, A, A, void, int, int);
	IX_OV(25, const, big, A, A, void, const std::string&);
	IX_OV(26, const, big, A, A, void, T&);
	IX_OV(31, , big, A, A, void, const T*);
	IX_OV(37, , wide, A, A, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int);
	IX_OV(38, const, solo, A, A, Pair, Map, int, Map);
	IX_OV(32, , big, A, A, void);
	IX_OV(33, , big, A, A, int, Map);
}
