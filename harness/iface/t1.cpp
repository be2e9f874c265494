#include "mocks.hpp"

void ix::table1()
{
	IX_OV(0, , none, A, A, void);
	IX_OV(1, , one, A, B, int, int);
	IX_OV(2, , two, A, A, int, int);
	IX_OV(3, const, two, A, A, int, int);
	IX_OV(4, , two, A, A, int, const std::string&);
	IX_OV(5, , two, A, A, int, const std::string&, int);
	IX_OV(6, const, two, A, A, int);
	IX_OV(7, , refs, A, A, T&, T&, const T&, T&&);
	IX_OV(8, const, refs, A, A, const T&, T&);
	IX_OV(9, , refs, A, A, T, T, Ptr);
	IX_OV(10, , refs, A, A, T&&, T&&);
	IX_OV(11, , quals, A, A, int, int);
	IX_OV(12, const, quals, A, A, int, int);
}
