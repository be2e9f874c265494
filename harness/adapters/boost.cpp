#define BOOST_TEST_NO_MAIN
#define BOOST_TEST_ALTERNATIVE_INIT_API
#include <boost/test/included/unit_test.hpp>
#include "mimic++/adapters/BoostTest.hpp"
#include "scenario.hpp"

#include <boost/test/results_collector.hpp>
#include <boost/test/unit_test_log_formatter.hpp>
#include <boost/test/tree/observer.hpp>

namespace
{
	using namespace ax;
	namespace ut = boost::unit_test;

	std::vector<Script> scripts{};
	Framework fw{};
	int at{-1};

	class Formatter : public ut::unit_test_log_formatter
	{
		std::string text{};
		std::string kind{};

	public:
		void log_start(std::ostream&, ut::counter_t) override {}
		void log_finish(std::ostream&) override {}
		void log_build_info(std::ostream&, bool) override {}
		void test_unit_start(std::ostream&, const ut::test_unit&) override {}
		void test_unit_finish(std::ostream&, const ut::test_unit&, unsigned long) override {}
		void test_unit_skipped(std::ostream&, const ut::test_unit&, ut::const_string) override {}
		void log_exception_start(std::ostream&, const ut::log_checkpoint_data&, const boost::execution_exception& e) override
		{
			entry("exc", std::string{e.what().begin(), e.what().end()});
		}
		void log_exception_finish(std::ostream&) override {}
		void log_entry_start(std::ostream&, const ut::log_entry_data&, log_entry_types t) override
		{
			text.clear();
			switch (t)
			{
			case BOOST_UTL_ET_MESSAGE: kind = "ok"; break;
			case BOOST_UTL_ET_FATAL_ERROR: kind = "fail"; break;
			case BOOST_UTL_ET_INFO: kind = "info"; break;
			default: kind = "soft";
			}
		}
		using unit_test_log_formatter::log_entry_value;
		void log_entry_value(std::ostream&, ut::const_string v) override { text.append(v.begin(), v.end()); }
		void log_entry_finish(std::ostream&) override
		{
			if (kind != "info")
			{
				if (kind == "ok" && text.rfind("warning: ", 0) == 0)
					entry("warn", text.substr(9));
				else
					entry(kind, text);
			}
		}
		void entry_context_start(std::ostream&, ut::log_level) override {}
		void log_entry_context(std::ostream&, ut::log_level, ut::const_string) override {}
		void entry_context_finish(std::ostream&, ut::log_level) override {}
	};

	class Observer : public ut::test_observer
	{
	public:
		void test_unit_start(const ut::test_unit& u) override
		{
			if (u.p_type == ut::TUT_CASE)
				begin(scripts.at(++at));
		}

		void test_unit_finish(const ut::test_unit& u, unsigned long) override
		{
			if (u.p_type == ut::TUT_CASE)
				ax::finish(!ut::results_collector.results(u.p_id).passed(), "[]");
		}

		int priority() override { return 100; }
	};

	Observer observer{};

	bool init()
	{
		for (const auto& s : scripts)
			ut::framework::master_test_suite().add(
				ut::make_test_case([&s] { body(s, fw); }, "t" + std::to_string(s.id), __FILE__, __LINE__));
		ut::framework::register_observer(observer);
		ut::unit_test_log.set_formatter(new Formatter{});
		ut::unit_test_log.set_threshold_level(ut::log_successful_tests);
		return true;
	}
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 3;
	out.open(argv[2]);
	scripts = read(argv[1]);
	fw.userFailure = [] { BOOST_TEST_FAIL("user failure"); };
	char name[] = "boost";
	char report[] = "--report_level=no";
	char sig[] = "--catch_system_errors=no";
	char* args[] = {name, report, sig, nullptr};
	ut::unit_test_main(&init, 3, args);
	out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
