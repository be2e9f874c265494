#include "str.ipp"
namespace mx
{
	AnyPtr str_sensitive(const std::string& kind, int src, const Enc& arg) { return sensitive<char>(kind, src, arg); }
}
