#include "mocks.hpp"

void ix::table2()
{
	IX_OV(13, , nquals, A, A, int, int);
	IX_OV(14, const, nquals, A, A, int, int);
	IX_OV(15, , commas, A, A, Pair, Map, int);
	IX_OV(16, const, commas, A, A, Pair, Map);
	IX_OV(17, , many, A, A, int, int, int, int, int, int, int, int, int, int, int, int, int);
	IX_OV(18, const, many, A, A, int, int, int, int, int, int, int, int, int, int, int, int);
	IX_OV(19, , many, A, A, T, int, T, int, T);
	IX_OV(27, , get, Base<int>, Base<int>, int, int);
	IX_OV(28, const, get, Base<int>, Base<int>, int, int);
	IX_OV(29, , other, B, B, Ptr, Ptr);
	IX_OV(30, const, other, B, B, void, T*);
	IX_OV(34, const, one, B, B, int, int, int);
	IX_OV(35, const, constant, B, B, const T&);
	IX_OV(36, , value, B, B, T, const int&&);
}
