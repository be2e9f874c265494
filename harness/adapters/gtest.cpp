#include "mimic++/adapters/gtest.hpp"
#include "scenario.hpp"

namespace
{
	using namespace ax;

	std::vector<Script> scripts{};
	Framework fw{};
	bool failed{};

	class Case : public testing::Test
	{
	public:
		const Script* s;
		explicit Case(const Script* x) : s{x} {}
		void TestBody() override { body(*s, fw); }
	};

	class Listener : public testing::EmptyTestEventListener
	{
		int at{-1};

		void OnTestStart(const testing::TestInfo&) override { begin(scripts.at(++at)); }

		void OnTestPartResult(const testing::TestPartResult& r) override
		{
			std::string m{r.message()};
			// "Failed\n" and "Succeeded\n" are prefixed by gtest
			for (const std::string p : {"Failed\n", "Succeeded\n"})
				if (m.rfind(p, 0) == 0)
					m = m.substr(p.size());
			// and a newline is appended
			if (!m.empty() && m.back() == '\n')
				m.pop_back();
			if (r.file_name() == nullptr)
				entry("exc", m);
			else
				entry(r.passed() ? "ok" : r.fatally_failed() ? "fail" : "soft", m);
		}

		void OnTestEnd(const testing::TestInfo& i) override { ax::finish(i.result()->Failed(), "[]"); }
	};
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 3;
	const char* in = argv[1];
	out.open(argv[2]);
	argc = 1;
	testing::InitGoogleTest(&argc, argv);
	scripts = read(in);
	auto& ls = testing::UnitTest::GetInstance()->listeners();
	delete ls.Release(ls.default_result_printer());
	ls.Append(new Listener{});
	fw.userFailure = [] {
		[] { FAIL() << "user failure"; }();
		throw UserError{"abort"};
	};
	for (const auto& s : scripts)
		testing::RegisterTest("x", ("t" + std::to_string(s.id)).c_str(), nullptr, nullptr, __FILE__, __LINE__, [&s]() -> Case* { return new Case{&s}; });
	(void)RUN_ALL_TESTS();
	out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
