// Feeds hand-made reports to the shipped reporters and records what comes out.
#include "mimic++/mimic++.hpp"

#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

namespace rx
{
	using namespace mimicpp;

	struct Unwind {};
	struct CbFail { std::string text; };

	static std::string esc(const std::string& s)
	{
		std::string r{"\""};
		for (const char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else r += c;
		}
		return r + "\"";
	}

	static const std::vector<std::string>& strings()
	{
		static const std::vector<std::string> s{
			"", "a", "expect: arg[0] == 42", "{}", "{0} {", "}}", "line\nbreak", "\ttab", "say \"x\" \\ y",
			"passed:", "failed:\n\ta,", "100%", "expect: arg[1] is not a very long description that goes on and on",
			"call from", "expect: b", "expect: c", "expect: d"};
		return s;
	}

	struct HereA
	{
		static std::source_location a() { return std::source_location::current(); }


		std::source_location b(int) const { return std::source_location::current(); }
	};

	template <typename T>
	static std::source_location there(T) { return std::source_location::current(); }

	static const std::vector<std::source_location>& locs()
	{
		static const std::vector<std::source_location> l{
			HereA::a(), HereA{}.b(1), there(1), there(std::string{}), std::source_location{}};
		return l;
	}

	static const std::vector<std::type_index>& types()
	{
		static const std::vector<std::type_index> t{typeid(int), typeid(void), typeid(std::string), typeid(std::vector<int>), typeid(HereA)};
		return t;
	}

	static std::vector<std::string> cbs{};

	static void cb(const std::string& k, const StringT& m) { cbs.push_back("[\"" + k + "\"," + esc(m) + "]"); }
	static void onSuccess(const StringT& m) { cb("ok", m); }
	static void onWarning(const StringT& m) { cb("warn", m); }
	static void onFail(const StringT& m) { cb("fail", m); throw CbFail{m}; }

	using Basic = BasicReporter<&onSuccess, &onWarning, &onFail>;

	static std::string j(const std::source_location& l)
	{
		return "[1," + esc(l.file_name()) + ",\"" + std::to_string(l.line()) + "\",\"" + std::to_string(l.column()) + "\","
				+ esc(l.function_name()) + "]";
	}

	static std::string j(const std::optional<std::source_location>& l) { return l ? j(*l) : "[0,\"\",\"\",\"\",\"\"]"; }
	static std::string j(const std::optional<StringT>& s) { return s ? "[1," + esc(*s) + "]" : "[0,\"\"]"; }

	static std::string j(const CallReport& c)
	{
		std::string a{};
		for (const auto& x : c.argDetails)
			a += (a.empty() ? "" : ",") + ("[" + esc(x.typeIndex.name()) + "," + esc(x.stateString) + "]");
		return "{\"ret\":" + esc(c.returnTypeIndex.name()) + ",\"loc\":" + j(c.fromLoc) + ",\"cat\":" + std::to_string((int)c.fromCategory)
				+ ",\"cst\":" + std::to_string((int)c.fromConstness) + ",\"args\":[" + a + "]}";
	}

	static std::string j(const std::vector<sequence::rating>& rs)
	{
		std::string a{};
		for (const auto& x : rs)
			a += (a.empty() ? "" : ",") + ("[" + std::to_string(x.priority) + "," + std::to_string(to_underlying(x.tag)) + "]");
		return "[" + a + "]";
	}

	static std::string j(const std::vector<sequence::Tag>& ts)
	{
		std::string a{};
		for (const auto& x : ts)
			a += (a.empty() ? "" : ",") + std::to_string(to_underlying(x));
		return "[" + a + "]";
	}

	static std::string ctl(int k, int mn, int mx, int n, const std::string& rs, const std::string& ts)
	{
		return "{\"k\":" + std::to_string(k) + ",\"mn\":" + std::to_string(mn) + ",\"mx\":" + std::to_string(mx) + ",\"n\":" + std::to_string(n)
				+ ",\"rs\":" + rs + ",\"ts\":" + ts + "}";
	}

	static std::string j(const control_state_t& c)
	{
		if (const auto* s = std::get_if<state_applicable>(&c))
			return ctl(1, s->min, s->max, s->count, j(s->sequenceRatings), "[]");
		if (const auto* s = std::get_if<state_inapplicable>(&c))
			return ctl(2, s->min, s->max, s->count, j(s->sequenceRatings), j(s->inapplicableSequences));
		const auto& s = std::get<state_saturated>(c);
		return ctl(3, s.min, s.max, s.count, "[]", j(s.sequences));
	}

	static std::string j(const MatchReport& m)
	{
		std::string a{};
		for (const auto& x : m.expectationReports)
			a += (a.empty() ? "" : ",") + ("[" + std::to_string((int)x.isMatching) + "," + j(x.description) + "]");
		return "{\"loc\":" + j(m.sourceLocation) + ",\"fin\":" + j(m.finalizeReport.description) + ",\"ctl\":" + j(m.controlReport)
				+ ",\"reqs\":[" + a + "]}";
	}

	static std::string j(const std::vector<MatchReport>& ms)
	{
		std::string a{};
		for (const auto& x : ms)
			a += (a.empty() ? "" : ",") + j(x);
		return "[" + a + "]";
	}

	static std::string j(const ExpectationReport& e)
	{
		std::string a{};
		for (const auto& x : e.expectationDescriptions)
			a += (a.empty() ? "" : ",") + j(x);
		return "{\"loc\":" + j(e.sourceLocation) + ",\"fin\":" + j(e.finalizerDescription) + ",\"times\":" + j(e.timesDescription)
				+ ",\"reqs\":[" + a + "]}";
	}

	struct Bad {};

	struct In
	{
		std::istringstream s;

		int n()
		{
			int x{};
			if (!(s >> x))
				throw Bad{};
			return x;
		}

		std::string str() { return strings().at(n() - 1); }

		std::optional<StringT> ostr()
		{
			const int k = n();
			return k == 0 ? std::nullopt : std::optional<StringT>{strings().at(k - 1)};
		}

		std::optional<std::source_location> oloc()
		{
			const int k = n();
			return k == 0 ? std::nullopt : std::optional<std::source_location>{locs().at(k - 1)};
		}

		std::type_index type() { return types().at(n() - 1); }

		CallReport call()
		{
			CallReport c{.returnTypeIndex = type()};
			c.fromLoc = locs().at(n() - 1);
			c.fromCategory = static_cast<ValueCategory>(n());
			c.fromConstness = static_cast<Constness>(n());
			for (int k = n(); k > 0; --k)
			{
				const auto t = type();
				c.argDetails.push_back({t, str()});
			}
			return c;
		}

		MatchReport match()
		{
			MatchReport m{};
			m.sourceLocation = oloc();
			m.finalizeReport.description = ostr();
			const int k = n(), mn = n(), mx = n(), cnt = n(), nr = n(), nt = n();
			std::vector<sequence::rating> rs{};
			std::vector<sequence::Tag> ts{};
			for (int i = 0; i < nr; ++i)
				rs.push_back({i * 3, static_cast<sequence::Tag>(i + 1)});
			for (int i = 0; i < nt; ++i)
				ts.push_back(static_cast<sequence::Tag>(i + 11));
			if (k == 1)
				m.controlReport = state_applicable{mn, mx, cnt, rs};
			else if (k == 2)
				m.controlReport = state_inapplicable{mn, mx, cnt, rs, ts};
			else
				m.controlReport = state_saturated{mn, mx, cnt, ts};
			for (int i = n(); i > 0; --i)
			{
				const bool ok = n() != 0;
				m.expectationReports.push_back({ok, ostr()});
			}
			return m;
		}

		ExpectationReport exp()
		{
			ExpectationReport e{};
			e.sourceLocation = oloc();
			e.finalizerDescription = ostr();
			e.timesDescription = ostr();
			for (int i = n(); i > 0; --i)
				e.expectationDescriptions.push_back(ostr());
			return e;
		}
	};

	struct Custom {};
	struct Derived : std::logic_error { using std::logic_error::logic_error; };

	static std::exception_ptr exception(int k, const std::string& text)
	{
		switch (k)
		{
		case 0: return std::make_exception_ptr(42);
		case 1: return std::make_exception_ptr(std::runtime_error{text});
		case 2: return std::make_exception_ptr(Derived{text});
		default: return std::make_exception_ptr(Custom{});
		}
	}

	template <typename F>
	struct AtExit
	{
		F f;
		~AtExit() { f(); }
	};
	template <typename F>
	AtExit(F) -> AtExit<F>;

	// runs f (which never throws) in the given context
	template <typename F>
	static void within(int unw, F f)
	{
		switch (unw)
		{
		case 0:
			f();
			break;
		case 1:
			try { AtExit x{f}; throw Unwind{}; }
			catch (const Unwind&) {}
			break;
		case 2:
			try
			{
				AtExit x{[&] {
					try { AtExit y{f}; throw 1; }
					catch (int) {}
				}};
				throw Unwind{};
			}
			catch (const Unwind&) {}
			break;
		case 3: // handling an exception, but not unwinding
			try { throw Unwind{}; }
			catch (const Unwind&) { f(); }
			break;
		case 4: // unwinding, with another exception being handled
			try
			{
				AtExit x{[&] {
					try { throw 1; }
					catch (int) { f(); }
				}};
				throw Unwind{};
			}
			catch (const Unwind&) {}
			break;
		case 5: // after an exception
			try { throw Unwind{}; }
			catch (const Unwind&) {}
			f();
			break;
		default:
			throw Bad{};
		}
	}
}

int main(int argc, char** argv)
{
	using namespace rx;
	if (argc < 3)
		return 3;
	std::ifstream in{argv[1]};
	std::ofstream out{argv[2]};
	std::ostringstream s1{}, s2{};
	std::vector<std::unique_ptr<IReporter>> reps{};
	std::string line{};
	try
	{
		while (std::getline(in, line))
		{
			if (line.empty())
				continue;
			In p{std::istringstream{line.substr(1)}};
			if (line[0] == 'S')
			{
				s1.str("");
				s2.str("");
				reps.clear();
				reps.push_back(std::make_unique<DefaultReporter>(&s1));
				reps.push_back(std::make_unique<DefaultReporter>(&s2));
				reps.push_back(std::make_unique<DefaultReporter>(nullptr));
				reps.push_back(std::make_unique<DefaultReporter>());
				reps.push_back(std::make_unique<Basic>());
				out << "{\"op\":\"start\",\"id\":" << p.n() << "}" << std::endl;
				continue;
			}
			if (line[0] != 'E')
				return 3;
			const int rep = p.n(), k = p.n(), unw = p.n();
			IReporter& r = *reps.at(rep - 1);
			CallReport call{.returnTypeIndex = typeid(void)};
			std::vector<MatchReport> ms{};
			ExpectationReport ex{};
			std::string msg{};
			int exc{};
			if (k == 1 || k == 2 || k == 3 || k == 6)
				call = p.call();
			if (k == 1 || k == 2)
				for (int i = p.n(); i > 0; --i)
					ms.push_back(p.match());
			if (k == 3)
				ms.push_back(p.match());
			if (k == 4 || k == 6)
				ex = p.exp();
			if (k == 5)
				msg = p.str();
			if (k == 6)
			{
				exc = p.n();
				msg = p.str();
			}
			std::string o{"ret"}, what{}, data{"{}"}, where{"[]"};
			cbs.clear();
			s1.str("");
			s2.str("");
			within(
				unw,
				[&] {
					try
					{
						switch (k)
						{
						case 1: r.report_no_matches(call, ms); break;
						case 2: r.report_inapplicable_matches(call, ms); break;
						case 3: r.report_full_match(call, ms[0]); break;
						case 4: r.report_unfulfilled_expectation(ex); break;
						case 5: r.report_error(msg); break;
						case 6: r.report_unhandled_exception(call, ex, exception(exc, msg)); break;
						default: std::_Exit(3);
						}
					}
					catch (const UnmatchedCallT& e)
					{
						o = "unmatched";
						what = e.what();
						data = "{\"call\":" + j(std::get<0>(e.data())) + ",\"ms\":" + j(std::get<1>(e.data())) + "}";
						where = j(e.where());
					}
					catch (const UnfulfilledExpectationT& e)
					{
						o = "unfulfilled";
						what = e.what();
						data = "{\"ex\":" + j(e.data()) + "}";
					}
					catch (const Error<>& e)
					{
						o = "error";
						what = e.what();
					}
					catch (const CbFail& e)
					{
						o = "cbfail";
						what = e.text;
					}
					catch (...)
					{
						o = "other";
					}
				});
			std::string c{};
			for (const auto& x : cbs)
				c += (c.empty() ? "" : ",") + x;
			out << "{\"op\":\"ev\",\"rep\":" << rep << ",\"k\":" << k << ",\"unw\":" << unw << ",\"call\":" << j(call) << ",\"ms\":" << j(ms)
				<< ",\"ex\":" << j(ex) << ",\"exc\":" << exc << ",\"msg\":" << esc(msg) << ",\"out\":\"" << o << "\",\"what\":" << esc(what)
				<< ",\"data\":" << data << ",\"where\":" << where << ",\"s1\":" << esc(s1.str()) << ",\"s2\":" << esc(s2.str())
				<< ",\"cb\":[" << c << "]}" << std::endl;
		}
	}
	catch (const Bad&)
	{
		return 3;
	}
	out << "{\"op\":\"end\"}" << std::endl;
	return 0;
}
