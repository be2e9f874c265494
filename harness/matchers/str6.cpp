#include "str.ipp"
namespace mx
{
	AnyPtr str_char32_t(const std::string& kind, int src, const Enc& arg) { return sensitive<char32_t>(kind, src, arg); }
}
