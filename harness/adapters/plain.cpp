// No framework: the reporters that are part of the library, exchanged while the test runs.
#include "scenario.hpp"

namespace
{
	using namespace ax;

	std::ostringstream streams[2]{};

	struct CbFail { std::string text; };
	void onSuccess(const StringT& m) { entry("ok", m); }
	void onWarning(const StringT& m) { entry("warn", m); }
	void onFail(const StringT& m) { entry("fail", m); throw CbFail{m}; }
	using Basic = BasicReporter<&onSuccess, &onWarning, &onFail>;

	void install(int k)
	{
		switch (k)
		{
		case 1: install_reporter<DefaultReporter>(&streams[0]); break;
		case 2: install_reporter<DefaultReporter>(&streams[1]); break;
		case 3: install_reporter<DefaultReporter>(nullptr); break;
		case 4: install_reporter<DefaultReporter>(); break;
		case 5: install_reporter<Basic>(); break;
		default: std::_Exit(3);
		}
	}

	void collect()
	{
		for (int i = 0; i < 2; ++i)
		{
			if (!streams[i].str().empty())
				entry(i == 0 ? "s1" : "s2", streams[i].str());
			streams[i].str("");
		}
	}

	std::string describe()
	{
		try { throw; }
		catch (const UnmatchedCallT& e) { return "[\"unmatched\"," + esc(e.what()) + "," + j(e.where()) + "]"; }
		catch (const UnfulfilledExpectationT& e) { return "[\"unfulfilled\"," + esc(e.what()) + "]"; }
		catch (const Error<>& e) { return "[\"error\"," + esc(e.what()) + "]"; }
		catch (const CbFail& e) { return "[\"cbfail\"," + esc(e.text) + "]"; }
		catch (const UserError&) { return "[\"user\"]"; }
		catch (...) { return "[\"other\"]"; }
	}
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 3;
	out.open(argv[2]);
	Framework fw{};
	fw.userFailure = [] { throw UserError{"user failure"}; };
	fw.install = &install;
	fw.describe = &describe;
	fw.sync = &collect;
	for (const auto& s : read(argv[1]))
	{
		begin(s);
		install(1);
		std::string escaped{"[]"};
		try { body(s, fw); }
		catch (...) { escaped = describe(); }
		collect();
		finish(escaped != "[]", escaped);
	}
	out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
