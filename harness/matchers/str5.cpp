#include "str.ipp"
namespace mx
{
	AnyPtr str_char16_t(const std::string& kind, int src, const Enc& arg) { return sensitive<char16_t>(kind, src, arg); }
}
