#include "px.hpp"

namespace px
{
	std::string reported{};

	void event(int t, int via, const std::string& before, const std::string& text, const std::string& after)
	{
		out << "{\"op\":\"print\",\"t\":" << t << ",\"via\":" << via << ",\"tree\":" << before << ",\"text\":" << q(text)
			<< ",\"same\":" << (before == after ? 1 : 0) << "}" << std::endl;
	}

	class Rec final : public mimicpp::IReporter
	{
		[[noreturn]] void report_no_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport>) override { std::_Exit(3); }
		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport>) override { std::_Exit(3); }
		void report_full_match(mimicpp::CallReport c, mimicpp::MatchReport) noexcept override { reported = c.argDetails.at(0).stateString; }
		void report_unfulfilled_expectation(mimicpp::ExpectationReport) override {}
		void report_error(mimicpp::StringT) override {}
		void report_unhandled_exception(mimicpp::CallReport, mimicpp::ExpectationReport, std::exception_ptr) override {}
	};
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 3;
	px::out.open(argv[2]);
	mimicpp::install_reporter<px::Rec>();
	std::ifstream in{argv[1]};
	std::string line{};
	while (std::getline(in, line))
	{
		if (line.empty())
			continue;
		std::istringstream s{line};
		std::string w{};
		s >> w;
		if (w == "S")
		{
			int id{};
			s >> id;
			px::out << "{\"op\":\"start\",\"id\":" << id << "}" << std::endl;
			continue;
		}
		int t{}, via{}, x{};
		if (w != "P" || !(s >> t >> via))
			return 3;
		px::In data{};
		while (s >> x)
			data.v.push_back(x);
		if (!px::run1(t, via, data) && !px::run2(t, via, data) && !px::run3(t, via, data) && !px::run4(t, via, data) && !px::run5(t, via, data))
			return 3;
	}
	px::out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
