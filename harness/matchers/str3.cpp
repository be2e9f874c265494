#include "str.ipp"
namespace mx
{
	AnyPtr str_wchar_t(const std::string& kind, int src, const Enc& arg) { return sensitive<wchar_t>(kind, src, arg); }
}
