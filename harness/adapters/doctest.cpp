#define DOCTEST_CONFIG_IMPLEMENT
#define DOCTEST_CONFIG_NO_POSIX_SIGNALS
#include "mimic++/adapters/Doctest.hpp"
#include "scenario.hpp"

namespace
{
	using namespace ax;

	Framework fw{};
	const Script* current{};

	struct Reporter : public doctest::IReporter
	{
		explicit Reporter(const doctest::ContextOptions&) {}
		void report_query(const doctest::QueryData&) override {}
		void test_run_start() override {}
		void test_run_end(const doctest::TestRunStats&) override {}
		void test_case_start(const doctest::TestCaseData&) override { begin(*current); }
		void test_case_reenter(const doctest::TestCaseData&) override {}
		void test_case_end(const doctest::CurrentTestCaseStats& s) override { ax::finish(!s.testCaseSuccess, "[]"); }
		void test_case_exception(const doctest::TestCaseException& e) override { entry("exc", e.error_string.c_str()); }
		void subcase_start(const doctest::SubcaseSignature&) override {}
		void subcase_end() override {}

		void log_assert(const doctest::AssertData& d) override
		{
			std::string m{};
			const int n = doctest::IReporter::get_num_active_contexts();
			for (int i = 0; i < n; ++i)
			{
				std::ostringstream ss{};
				doctest::IReporter::get_active_contexts()[i]->stringify(&ss);
				m += ss.str();
			}
			entry(d.m_failed ? "fail" : "ok", m);
		}

		void log_message(const doctest::MessageData& d) override
		{
			entry(d.m_severity == doctest::assertType::is_warn ? "warn" : d.m_severity == doctest::assertType::is_require ? "fail" : "soft",
				d.m_string.c_str());
		}

		void test_case_skipped(const doctest::TestCaseData&) override {}
	};

	DOCTEST_REGISTER_LISTENER("trace", 1, Reporter);

	DOCTEST_TEST_CASE("script") { body(*current, fw); }
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 3;
	out.open(argv[2]);
	const auto scripts = read(argv[1]);
	fw.userFailure = [] { DOCTEST_FAIL("user failure"); };
	for (const auto& s : scripts)
	{
		current = &s;
		std::ostringstream devNull{};
		doctest::Context ctx{};
		ctx.setCout(&devNull);
		ctx.setOption("no-breaks", true);
		ctx.setOption("success", true);
		ctx.run();
	}
	out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
