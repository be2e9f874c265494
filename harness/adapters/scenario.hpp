// One test case of a test framework, written as a script (see spec/TestCase.tla).
#pragma once

#include "mimic++/mimic++.hpp"

#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace ax
{
	using namespace mimicpp;

	inline std::string esc(const std::string& s)
	{
		std::string r{"\""};
		for (const char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else if (c == '\r') r += "\\r";
			else r += c;
		}
		return r + "\"";
	}

	inline std::string j(const std::source_location& l)
	{
		return "[1," + esc(l.file_name()) + ",\"" + std::to_string(l.line()) + "\",\"" + std::to_string(l.column()) + "\","
				+ esc(l.function_name()) + "]";
	}

	// what the framework was told since the last event
	inline std::vector<std::string> entries{};
	inline void entry(const std::string& kind, const std::string& text) { entries.push_back("[\"" + kind + "\"," + esc(text) + "]"); }

	inline std::ofstream out{};

	inline std::string flush()
	{
		std::string r{};
		for (const auto& e : entries)
			r += (r.empty() ? "" : ",") + e;
		entries.clear();
		return "[" + r + "]";
	}

	struct UserError : std::runtime_error { using std::runtime_error::runtime_error; };
	struct Unwind {};

	struct Script
	{
		int id{};
		std::vector<std::string> ops{};
	};

	inline std::vector<Script> read(const char* path)
	{
		std::vector<Script> r{};
		std::ifstream in{path};
		std::string line{};
		while (std::getline(in, line))
		{
			if (line.empty())
				continue;
			if (line[0] == 'S')
				r.push_back({std::stoi(line.substr(1)), {}});
			else if (r.empty())
				std::_Exit(3);
			else
				r.back().ops.push_back(line);
		}
		return r;
	}

	// a scoped object that can end early and whose end may throw
	template <typename T>
	struct Slot
	{
		T* p{};
		~Slot() noexcept(false) { reset(); }
		void reset() { delete std::exchange(p, nullptr); }
	};

	template <typename F>
	struct AtExit
	{
		F f;
		~AtExit() noexcept(false) { f(); }
	};
	template <typename F>
	AtExit(F) -> AtExit<F>;

	template <typename F>
	void unwinding(F f)
	{
		try
		{
			AtExit x{[&] {
				try { f(); }
				catch (...) {}
			}};
			throw Unwind{};
		}
		catch (const Unwind&) {}
	}

	// hooks of a framework
	struct Framework
	{
		std::function<void()> userFailure{}; // a failing assertion of the user's
		std::function<void(int)> install{};  // another reporter
		std::function<std::string()> describe{}; // an exception of a reporter that is being handled
		std::function<void()> sync{[] {}};   // collects what was written
	};

	struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };

	inline std::function<bool(const int&)> atom(int t, int v)
	{
		return [=](const int& x) {
			if (t == 7 && x == v)
				throw Boom{"boom " + std::to_string(v)};
			return true;
		};
	}

	template <typename B>
	ScopedExpectation finish(B&& b, int tk, int ta, int tb, int res, std::vector<LazySequence*> s, std::source_location& loc)
	{
		const auto seq = [&](auto&& x) {
			if (s.empty())
			{
				loc = std::source_location::current();
				return ScopedExpectation{std::move(x) and finally::returns(res), loc};
			}
			if (s.size() == 1)
			{
				loc = std::source_location::current();
				return ScopedExpectation{std::move(x) and expect::in_sequence(*s[0]) and finally::returns(res), loc};
			}
			loc = std::source_location::current();
			return ScopedExpectation{std::move(x) and expect::in_sequences(*s[0], *s[1]) and finally::returns(res), loc};
		};
		switch (tk)
		{
		case 0: return seq(std::move(b));
		case 1: return seq(std::move(b) and expect::times(ta, tb));
		case 2: return seq(std::move(b) and expect::times(ta));
		case 3: return seq(std::move(b) and expect::at_least(ta));
		case 4: return seq(std::move(b) and expect::at_most(ta));
		default: std::_Exit(3);
		}
	}

	inline ScopedExpectation make(Mock<int(int)>& m, int t, int v, int tk, int ta, int tb, int res, std::vector<LazySequence*> s, std::source_location& loc)
	{
		switch (t)
		{
		case 0: return finish(m.expect_call(matches::_), tk, ta, tb, res, std::move(s), loc);
		case 1: return finish(m.expect_call(v), tk, ta, tb, res, std::move(s), loc);
		case 2: return finish(m.expect_call(matches::ne(v)), tk, ta, tb, res, std::move(s), loc);
		case 3: return finish(m.expect_call(matches::lt(v)), tk, ta, tb, res, std::move(s), loc);
		case 5: return finish(m.expect_call(matches::gt(v)), tk, ta, tb, res, std::move(s), loc);
		case 7: return finish(m.expect_call(matches::predicate(atom(t, v), "passes boom " + std::to_string(v))), tk, ta, tb, res, std::move(s), loc);
		default: std::_Exit(3);
		}
	}

	// runs one script as the body of a test case
	inline void body(const Script& script, const Framework& fw)
	{
		Mock<int(int)> mock{};
		Slot<LazySequence> seqs[2]{};
		seqs[0].p = new LazySequence{};
		seqs[1].p = new LazySequence{};
		Slot<ScopedExpectation> exps[4]{};

		for (const auto& line : script.ops)
		{
			std::istringstream in{line};
			std::string op{};
			in >> op;
			const auto n = [&] {
				int x{};
				if (!(in >> x))
					std::_Exit(3);
				return x;
			};
			std::string ev{"{\"op\":\"" + op + "\""};
			std::string thrown{};
			int res = -1;
			const int before = std::uncaught_exceptions();
			AtExit done{[&] {
				fw.sync();
				out << ev << ",\"res\":" << res << ",\"exc\":" << (thrown.empty() ? "[]" : thrown)
					<< ",\"over\":" << (std::uncaught_exceptions() > before ? 1 : 0) << ",\"log\":" << flush() << "}" << std::endl;
			}};
			const auto caught = [&](auto f) {
				try { f(); }
				catch (...) { thrown = fw.describe ? fw.describe() : "[\"some\"]"; }
			};
			if (op == "X")
			{
				const int x = n(), t = n(), v = n(), tk = n(), ta = n(), tb = n(), ns = n();
				std::vector<LazySequence*> s{};
				std::string sj{};
				for (int i = 0; i < ns; ++i)
				{
					const int k = n();
					s.push_back(seqs[k - 1].p);
					sj += (i ? "," : "") + std::to_string(k);
				}
				std::source_location loc{};
				exps[x].p = new ScopedExpectation{make(mock, t, v, tk, ta, tb, 100 + x, s, loc)};
				ev += ",\"x\":" + std::to_string(x) + ",\"t\":" + std::to_string(t) + ",\"v\":" + std::to_string(v) + ",\"tk\":" + std::to_string(tk)
					+ ",\"ta\":" + std::to_string(ta) + ",\"tb\":" + std::to_string(tb) + ",\"seqs\":[" + sj + "],\"loc\":" + j(loc);
			}
			else if (op == "C" || op == "H" || op == "T" || op == "U")
			{
				const int v = n();
				const auto loc = std::source_location::current();
				ev += ",\"v\":" + std::to_string(v) + ",\"loc\":" + j(loc) + ",\"ty\":" + esc(typeid(int).name());
				if (op == "C")
					res = mock(v, loc);
				else if (op == "H") // in an exception handler
				{
					try { throw Unwind{}; }
					catch (const Unwind&) { res = mock(v, loc); }
				}
				else if (op == "T")
					caught([&] { res = mock(v, loc); });
				else
					unwinding([&] { caught([&] { res = mock(v, loc); }); });
			}
			else if (op == "D" || op == "E" || op == "K" || op == "Z")
			{
				const int x = n();
				ev += ",\"x\":" + std::to_string(x);
				if (op == "D")
					exps[x].reset();
				else if (op == "E") // in an exception handler
				{
					try { throw Unwind{}; }
					catch (const Unwind&) { exps[x].reset(); }
				}
				else if (op == "K")
					caught([&] { exps[x].reset(); });
				else
					unwinding([&] { caught([&] { exps[x].reset(); }); });
			}
			else if (op == "W") // an expectation and a sequence end together during unwinding
			{
				const int x = n(), s = n();
				ev += ",\"x\":" + std::to_string(x) + ",\"s\":" + std::to_string(s);
				unwinding([&] {
					seqs[s - 1].reset();
					caught([&] { exps[x].reset(); });
				});
			}
			else if (op == "Q")
			{
				const int s = n();
				ev += ",\"s\":" + std::to_string(s);
				seqs[s - 1].reset();
			}
			else if (op == "I")
			{
				const int k = n();
				ev += ",\"k\":" + std::to_string(k);
				if (fw.install)
					fw.install(k);
			}
			else if (op == "F")
				throw UserError{"user error"};
			else if (op == "A")
				fw.userFailure();
			else
				std::_Exit(3);
		}
	}

	inline void begin(const Script& s)
	{
		entries.clear();
		out << "{\"op\":\"start\",\"id\":" << s.id << "}" << std::endl;
	}

	// failed: the verdict of the framework
	inline void finish(bool failed, const std::string& escaped)
	{
		out << "{\"op\":\"fin\",\"failed\":" << (failed ? 1 : 0) << ",\"exc\":" << escaped << ",\"log\":" << flush() << "}" << std::endl;
	}
}
