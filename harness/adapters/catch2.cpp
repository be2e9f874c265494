#include "mimic++/adapters/Catch2.hpp"
#include "scenario.hpp"

#include <catch2/catch_all.hpp>
#include <catch2/interfaces/catch_interfaces_registry_hub.hpp>
#include <catch2/internal/catch_test_registry.hpp>

namespace
{
	using namespace ax;

	std::vector<Script> scripts{};
	Framework fw{};

	class Listener : public Catch::EventListenerBase
	{
		int at{-1};

	public:
		explicit Listener(const Catch::IConfig* c) : EventListenerBase{c} { m_preferences.shouldReportAllAssertions = true; }

		void testCaseStarting(const Catch::TestCaseInfo&) override { begin(scripts.at(++at)); }

		void assertionEnded(const Catch::AssertionStats& s) override
		{
			const auto& r = s.assertionResult;
			std::string m{r.getMessage()};
			switch (r.getResultType())
			{
			case Catch::ResultWas::ThrewException: entry("exc", m); break;
			case Catch::ResultWas::ExplicitFailure: entry("fail", m); break;
			case Catch::ResultWas::Warning: entry("warn", m); break;
			case Catch::ResultWas::Ok: entry("ok", m); break;
			default: entry("soft", m);
			}
		}

		void testCaseEnded(const Catch::TestCaseStats& s) override { ax::finish(s.totals.testCases.failed > 0 || !s.totals.assertions.allOk(), "[]"); }
	};

	CATCH_REGISTER_LISTENER(Listener)

	class Invoker : public Catch::ITestInvoker
	{
	public:
		const Script* s;
		explicit Invoker(const Script* x) : s{x} {}
		void invoke() const override { body(*s, fw); }
	};
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 3;
	out.open(argv[2]);
	scripts = read(argv[1]);
	fw.userFailure = [] { FAIL("user failure"); };
	for (const auto& s : scripts)
		Catch::getMutableRegistryHub().registerTest(
			Catch::makeTestCaseInfo("", Catch::NameAndTags{"t" + std::to_string(s.id)}, CATCH_INTERNAL_LINEINFO),
			Catch::Detail::unique_ptr<Catch::ITestInvoker>{new Invoker{&s}});
	Catch::Session session{};
	session.configData().runOrder = Catch::TestRunOrder::Declared;
	session.configData().defaultOutputFilename = "/dev/null";
	session.configData().allowZeroTests = true;
	session.run();
	out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
