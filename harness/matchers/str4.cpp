#include "str.ipp"
namespace mx
{
	AnyPtr str_char8_t(const std::string& kind, int src, const Enc& arg) { return sensitive<char8_t>(kind, src, arg); }
}
