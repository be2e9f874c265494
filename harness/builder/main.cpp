#include "mimic++/mimic++.hpp"

#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace bd
{
	using Item = std::function<std::string()>;
	std::vector<Item>& all();
	void fill();
	void start();
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 3;
	bd::fill();
	bd::start();
	std::ifstream in{argv[1]};
	std::ofstream out{argv[2]};
	std::string line{};
	while (std::getline(in, line))
	{
		std::istringstream s{line};
		std::string op{};
		std::size_t k{};
		if (!(s >> op >> k))
			continue;
		if (op == "S")
			out << "{\"op\":\"start\",\"id\":" << k << "}" << std::endl;
		else if (op == "I" && k < bd::all().size() && bd::all()[k])
			out << bd::all()[k]() << std::endl;
		else
			return 3;
	}
	out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
