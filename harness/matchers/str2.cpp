#include "str.ipp"
namespace mx
{
	AnyPtr str_insensitive(const std::string& kind, int src, const Enc& arg) { return insensitive<char>(kind, src, arg); }
}
