#include "mocks.hpp"

namespace ix
{
	D* d{};

	namespace
	{
		std::unique_ptr<D> objs[2]{};
		int reports{};

		class Rec final : public IReporter
		{
			[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport>) override { throw None{}; }
			[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { throw Inapp{}; }
			void report_full_match(CallReport, MatchReport) noexcept override { ++reports; }
			void report_unfulfilled_expectation(ExpectationReport) override { ++reports; }
			void report_error(StringT) override { ++reports; }
			void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override { ++reports; }
		};

		std::string list(const std::vector<int>& v)
		{
			std::string s{};
			for (const int x : v)
				s += (s.empty() ? "" : ",") + std::to_string(x);
			return "[" + s + "]";
		}
	}

	void use(int obj) { d = objs[obj].get(); }
	void renew(int obj) { objs[obj] = std::make_unique<D>(); }
	void relocate(int obj) { objs[obj] = std::make_unique<D>(std::move(*objs[obj])); }
}

int main(int argc, char** argv)
{
	using namespace ix;
	if (argc < 3)
		return 3;
	table1();
	table2();
	table3();
	install_reporter<Rec>();
	std::ifstream in{argv[1]};
	std::ofstream out{argv[2]};
	std::vector<ScopedExpectation*> exps(8, nullptr);
	const auto clear = [&] {
		for (auto& e : exps)
		{
			delete e;
			e = nullptr;
		}
	};
	std::string line{};
	while (std::getline(in, line))
	{
		if (line.empty())
			continue;
		std::istringstream s{line};
		std::string op{};
		s >> op;
		const auto n = [&] {
			int x{};
			if (!(s >> x))
				std::_Exit(3);
			return x;
		};
		reports = 0;
		if (op == "S")
		{
			clear();
			renew(0);
			renew(1);
			out << "{\"op\":\"start\",\"id\":" << n() << "}" << std::endl;
		}
		else if (op == "X")
		{
			Def e{};
			e.x = n();
			const int obj = n(), o = n();
			e.lim = n();
			e.fin = n();
			e.res = n();
			const auto it = table.find(o);
			if (it == table.end() || exps[e.x])
				return 3;
			for (int i = 0; i < it->second.params; ++i)
				e.pats.push_back(n());
			use(obj);
			exps[e.x] = new ScopedExpectation{it->second.expect(e)};
			out << "{\"op\":\"X\",\"x\":" << e.x << ",\"obj\":" << obj << ",\"o\":" << o << ",\"lim\":" << e.lim << ",\"fin\":" << e.fin
				<< ",\"res\":" << e.res << ",\"pats\":" << list(e.pats) << ",\"reports\":" << reports << "}" << std::endl;
		}
		else if (op == "C")
		{
			const int obj = n(), o = n(), via = n();
			const auto it = table.find(o);
			if (it == table.end())
				return 3;
			std::vector<int> vals{};
			for (int i = 0; i < it->second.params; ++i)
				vals.push_back(n());
			use(obj);
			cur = {};
			it->second.call(via, vals);
			out << "{\"op\":\"C\",\"obj\":" << obj << ",\"o\":" << o << ",\"via\":" << via << ",\"vals\":" << list(vals) << ",\"verdict\":\"" << cur.verdict
				<< "\",\"x\":" << cur.x << ",\"obs\":" << cur.obs << ",\"res\":" << cur.res << ",\"after\":" << list(cur.after)
				<< ",\"copies\":" << copies << ",\"reports\":" << reports << "}" << std::endl;
		}
		else if (op == "D")
		{
			const int x = n();
			delete std::exchange(exps[x], nullptr);
			out << "{\"op\":\"D\",\"x\":" << x << ",\"reports\":" << reports << "}" << std::endl;
		}
		else if (op == "M")
		{
			const int obj = n();
			relocate(obj);
			out << "{\"op\":\"M\",\"obj\":" << obj << ",\"reports\":" << reports << "}" << std::endl;
		}
		else
			return 3;
	}
	clear();
	out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
