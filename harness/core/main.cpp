#include "exec.hpp"

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>

namespace mx
{
	ScopedExpectation make_k0_seq(K0&, const ExpSpec&);
	ScopedExpectation make_k0_ord(K0&, const ExpSpec&);
	ScopedExpectation make_k0_pol(K0&, const ExpSpec&);
	ScopedExpectation make_k0_fin(K0&, const ExpSpec&);

	template <>
	ScopedExpectation make<K0>(K0& m, const ExpSpec& s)
	{
		if (s.order != 0)
			return make_k0_ord(m, s);
		if (s.fin != 0)
			return make_k0_fin(m, s);
		if (s.pol != 0 || s.argk != 0)
			return make_k0_pol(m, s);
		return make_k0_seq(m, s);
	}
	template <> int do_call<K0>(K0&, const CallSpec&);
#define MX_DECL(K)                                            \
	template <> ScopedExpectation make<K>(K&, const ExpSpec&); \
	template <> int do_call<K>(K&, const CallSpec&);
	MX_DECL(K1) MX_DECL(K2) MX_DECL(K3) MX_DECL(K4) MX_DECL(K5) MX_DECL(K6)
	MX_DECL(K7) MX_DECL(K8) MX_DECL(K9) MX_DECL(K10) MX_DECL(K11) MX_DECL(K12)

	// distinct source locations
	static const std::source_location locs[] = {
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
		std::source_location::current(),
	};

	std::source_location exp_loc(int i) { return locs[i % loc_count]; }
	std::source_location call_loc(int i) { return locs[loc_count + i % loc_count]; }

	static std::map<int, std::pair<int, std::string>>& noted_lines()
	{
		static std::map<int, std::pair<int, std::string>> m{};
		return m;
	}

	void note_line(int i, int line, const char* file) { noted_lines()[line] = {i, file}; }

	int loc_index(const std::source_location& l)
	{
		if (const auto it = noted_lines().find(static_cast<int>(l.line()));
			it != noted_lines().end() && it->second.second == l.file_name())
			return it->second.first;
		for (int i = 0; i < 2 * loc_count; ++i)
			if (locs[i].line() == l.line() && std::strcmp(locs[i].file_name(), l.file_name()) == 0
				&& locs[i].column() == l.column())
				return i;
		return -1;
	}

	World& W()
	{
		static World* w = new World{};
		return *w;
	}

	static std::unique_ptr<World>& world_holder()
	{
		static std::unique_ptr<World> h{};
		return h;
	}

	// ---- JSON output -----------------------------------------------------------------
	static FILE* out = stdout;

	std::string esc(const std::string& s)
	{
		std::string r{"\""};
		for (const unsigned char c : s)
		{
			if (c == '"' || c == '\\')
			{
				r += '\\';
				r += char(c);
			}
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else if (c < 0x20 || c >= 0x7f)
			{
				char buf[8];
				std::snprintf(buf, sizeof buf, "\\u%04x", c);
				r += buf;
			}
			else r += char(c);
		}
		return r + "\"";
	}

	std::string ints(const std::vector<int>& v)
	{
		std::string r{"["};
		for (std::size_t i = 0; i < v.size(); ++i)
			r += (i ? "," : "") + std::to_string(v[i]);
		return r + "]";
	}

	void emit(const std::string& s)
	{
		std::fputs(s.c_str(), out);
		std::fputc('\n', out);
		std::fflush(out);
	}

	// ---- recording ---------------------------------------------------------------------
	struct Frame
	{
		bool verdict{false};         // verdict line written
		int verdicts{0};             // verdict reports received
		std::string head{};          // call description, for the verdict line
		std::vector<std::string> unh{};
		std::string log{};           // side effect / finalizer log
	};

	static std::vector<Frame> frames{};
	static std::vector<std::string> retire{}; // unfulfilled / error reports since the last event line
	static int currentRep{0};
	static bool throwUnfulfilled{false};
	static int exSerial{0};
	static std::string strayVerdicts{};

	bool tag_satisfied(int uid) noexcept
	{
		const auto it = W().psat.find(uid);
		return it == W().psat.end() || it->second != 0;
	}

	std::string tagOf(const std::vector<std::optional<StringT>>& ds)
	{
		for (const auto& d : ds)
			if (d && d->rfind("tag:", 0) == 0)
				return d->substr(4);
		return "0";
	}

	std::string tagOf(const MatchReport& r)
	{
		std::vector<std::optional<StringT>> ds{};
		for (const auto& e : r.expectationReports)
			ds.emplace_back(e.description);
		return tagOf(ds);
	}

	int sidOf(sequence::Tag t)
	{
		const auto it = W().seqTags.find(static_cast<long long>(t));
		return it == W().seqTags.end() ? -1 : it->second;
	}

	std::string descs(const std::vector<std::optional<StringT>>& ds)
	{
		std::string r{"["};
		for (std::size_t i = 0; i < ds.size(); ++i)
			r += (i ? "," : "") + esc(ds[i] ? *ds[i] : "-");
		return r + "]";
	}

	std::string json(const MatchReport& r)
	{
		std::string m{"["};
		std::vector<std::optional<StringT>> ds{};
		for (const auto& e : r.expectationReports)
		{
			m += (m.size() > 1 ? "," : "") + std::string(e.isMatching ? "1" : "0");
			ds.emplace_back(e.description);
		}
		m += "]";
		std::string s{"{\"t\":" + tagOf(r) + ",\"m\":" + m};
		const auto common = [&](const char* k, const auto& st) {
			s += std::string(",\"c\":\"") + k + "\",\"mn\":" + std::to_string(st.min) + ",\"mx\":"
				+ std::to_string(st.max) + ",\"ct\":" + std::to_string(st.count);
		};
		const auto ratings = [&](const auto& rs) {
			std::string q{",\"r\":["};
			for (std::size_t i = 0; i < rs.size(); ++i)
				q += (i ? "," : "") + std::string("[") + std::to_string(sidOf(rs[i].tag)) + ","
					+ std::to_string(rs[i].priority) + "]";
			s += q + "]";
		};
		const auto tags = [&](const auto& ts) {
			std::vector<int> v{};
			for (const auto t : ts)
				v.push_back(sidOf(t));
			s += ",\"b\":" + ints(v);
		};
		if (const auto* a = std::get_if<state_applicable>(&r.controlReport))
		{
			common("a", *a);
			ratings(a->sequenceRatings);
			s += ",\"b\":[]";
		}
		else if (const auto* i = std::get_if<state_inapplicable>(&r.controlReport))
		{
			common("i", *i);
			ratings(i->sequenceRatings);
			tags(i->inapplicableSequences);
		}
		else
		{
			const auto& t = std::get<state_saturated>(r.controlReport);
			common("s", t);
			s += ",\"r\":[]";
			tags(t.sequences);
		}
		s += ",\"ln\":" + std::to_string(r.sourceLocation ? loc_index(*r.sourceLocation) : -2);
		s += ",\"d\":" + descs(ds) + "}";
		return s;
	}

	std::string json(const ExpectationReport& r)
	{
		return "\"t\":" + tagOf(r.expectationDescriptions) + ",\"ti\":"
			+ esc(r.timesDescription ? *r.timesDescription : "-") + ",\"ln\":"
			+ std::to_string(r.sourceLocation ? loc_index(*r.sourceLocation) : -2) + ",\"d\":"
			+ descs(r.expectationDescriptions);
	}

	std::string json(const CallReport& c)
	{
		std::string s{"{\"a\":["};
		for (std::size_t i = 0; i < c.argDetails.size(); ++i)
			s += (i ? "," : "") + esc(c.argDetails[i].stateString);
		s += "],\"ty\":[";
		for (std::size_t i = 0; i < c.argDetails.size(); ++i)
			s += (i ? "," : "") + std::string(c.argDetails[i].typeIndex == typeid(int) ? "\"int\"" : "\"?\"");
		s += "],\"rt\":";
		s += c.returnTypeIndex == typeid(int) ? "\"int\"" : c.returnTypeIndex == typeid(void) ? "\"void\"" : "\"?\"";
		s += ",\"cat\":" + std::to_string(int(c.fromCategory)) + ",\"cst\":" + std::to_string(int(c.fromConstness));
		s += ",\"ln\":" + std::to_string(loc_index(c.fromLoc)) + "}";
		return s;
	}

	std::string join(const std::vector<std::string>& v)
	{
		std::string r{"["};
		for (std::size_t i = 0; i < v.size(); ++i)
			r += (i ? "," : "") + v[i];
		return r + "]";
	}

	void write_verdict(const char* kind, const std::string& call, const std::string& reps)
	{
		if (frames.empty())
		{
			strayVerdicts += "x";
			return;
		}
		auto& f = frames.back();
		++f.verdicts;
		if (f.verdict)
			return;
		f.verdict = true;
		emit(
			"{\"op\":\"verdict\"," + f.head + ",\"kind\":\"" + kind + "\",\"rep\":" + std::to_string(currentRep)
			+ ",\"call\":" + call + ",\"reps\":" + reps + ",\"unh\":" + join(f.unh) + "}");
	}

	void ensure_verdict()
	{
		auto& f = frames.back();
		if (!f.verdict)
		{
			f.verdict = true;
			emit(
				"{\"op\":\"verdict\"," + f.head + ",\"kind\":\"silent\",\"rep\":0,\"call\":{},\"reps\":[],\"unh\":"
				+ join(f.unh) + "}");
		}
	}

	class RecReporter final
		: public IReporter
	{
	public:
		explicit RecReporter(int id) : m_Id{id} {}

		[[noreturn]] void report_no_matches(CallReport call, std::vector<MatchReport> rs) override
		{
			fail("none", call, rs);
		}

		[[noreturn]] void report_inapplicable_matches(CallReport call, std::vector<MatchReport> rs) override
		{
			fail("inapp", call, rs);
		}

		void report_full_match(CallReport call, MatchReport r) noexcept override
		{
			currentRep = m_Id;
			write_verdict("full", json(call), "[" + json(r) + "]");
		}

		void report_unfulfilled_expectation(ExpectationReport r) override
		{
			retire.push_back("{\"k\":\"unf\",\"rep\":" + std::to_string(m_Id) + "," + json(r) + "}");
			if (throwUnfulfilled && 0 == std::uncaught_exceptions())
				throw UnfulfilledEx{m_Id, ++exSerial};
		}

		void report_error(StringT msg) override
		{
			// the numbers of the message
			std::vector<int> v{};
			for (std::size_t i = 0; i < msg.size();)
			{
				if (std::isdigit(static_cast<unsigned char>(msg[i])))
				{
					int n = 0;
					while (i < msg.size() && std::isdigit(static_cast<unsigned char>(msg[i])))
						n = n * 10 + (msg[i++] - '0');
					v.push_back(n);
				}
				else
					++i;
			}
			retire.push_back(
				"{\"k\":\"err\",\"rep\":" + std::to_string(m_Id) + ",\"nums\":" + ints(v) + ",\"msg\":" + esc(msg)
				+ "}");
		}

		void report_unhandled_exception(CallReport call, ExpectationReport r, std::exception_ptr ex) override
		{
			int id = -1;
			try
			{
				std::rethrow_exception(ex);
			}
			catch (const MatcherEx& e)
			{
				id = e.id;
			}
			catch (const PlainEx& e)
			{
				id = e.id;
			}
			catch (...)
			{
			}
			const std::string s{
				"{\"rep\":" + std::to_string(m_Id) + ",\"ex\":" + std::to_string(id) + ",\"call\":" + json(call) + ","
				+ json(r) + "}"};
			if (frames.empty())
				strayVerdicts += "u";
			else
				frames.back().unh.push_back(s);
		}

	private:
		int m_Id;

		[[noreturn]] void fail(const char* kind, const CallReport& call, const std::vector<MatchReport>& rs)
		{
			currentRep = m_Id;
			std::vector<std::string> v{};
			for (const auto& r : rs)
				v.push_back(json(r));
			write_verdict(kind, json(call), join(v));
			throw UnmatchedEx{m_Id, ++exSerial};
		}
	};

	void log_side(int uid, int k, std::vector<int> args)
	{
		if (frames.empty())
			return;
		ensure_verdict();
		auto& l = frames.back().log;
		l += (l.empty() ? "" : ",") + std::string("[\"s\",") + std::to_string(uid) + "," + std::to_string(k) + ","
			+ ints(args) + "]";
	}

	void log_fin(int uid, std::vector<int> args)
	{
		if (frames.empty())
			return;
		ensure_verdict();
		auto& l = frames.back().log;
		l += (l.empty() ? "" : ",") + std::string("[\"f\",") + std::to_string(uid) + ",0," + ints(args) + "]";
	}

	bool seq_is_lazy(int slot) { return W().seqs.at(slot).s.index() == 1; }
	LazySequence* lazy_of(int slot) { return std::get<1>(W().seqs.at(slot).s).get(); }
	GreedySequence* greedy_of(int slot) { return std::get<2>(W().seqs.at(slot).s).get(); }

	std::string sat()
	{
		std::string r{"["};
		for (auto& [x, e] : W().exps)
		{
			if (e && W().owner[x] != 0)
				r += (r.size() > 1 ? "," : "") + std::string("[") + std::to_string(W().owner[x]) + ","
					+ (e->is_satisfied() ? "1" : "0") + "," + std::to_string(loc_index(e->from())) + "]";
		}
		return r + "]";
	}

	std::string tail()
	{
		std::string s{",\"rr\":" + join(retire) + ",\"sat\":" + sat() + ",\"stray\":" + esc(strayVerdicts)
			+ ",\"u\":" + (0 < std::uncaught_exceptions() ? "1" : "0")};
		retire.clear();
		strayVerdicts.clear();
		return s + "}";
	}

	template <typename F>
	std::string guarded(F&& f)
	{
		try
		{
			f();
			return "\"ok\"";
		}
		catch (const std::invalid_argument&)
		{
			return "\"invalid\"";
		}
		catch (const UnfulfilledEx&)
		{
			return "\"unf\"";
		}
		catch (const UnmatchedEx&)
		{
			return "\"unm\"";
		}
		catch (...)
		{
			return "\"other\"";
		}
	}

	static std::vector<int> ints_of(std::istringstream& is)
	{
		std::vector<int> v{};
		for (int i; is >> i;)
			v.push_back(i);
		return v;
	}

	AnyMock make_mock(int kind)
	{
		switch (kind)
		{
		case 0: return std::make_unique<K0>();
		case 1: return std::make_unique<K1>();
		case 2: return std::make_unique<K2>();
		case 3: return std::make_unique<K3>();
		case 4: return std::make_unique<K4>();
		case 5: return std::make_unique<K5>();
		case 6: return std::make_unique<K6>();
		case 7: return std::make_unique<K7>();
		case 8: return std::make_unique<K8>();
		case 9: return std::make_unique<K9>();
		case 10: return std::make_unique<K10>();
		case 11: return std::make_unique<K11>();
		default: return std::make_unique<K12>();
		}
	}

	void destroy_slot(int x)
	{
		auto& slot = W().exps[x];
		ScopedExpectation* const p = slot;
		slot = nullptr;
		W().owner[x] = 0;
		delete p; // may throw
	}

	CallResult call(AnyMock& m, const CallSpec& c)
	{
		CallResult r{};
		try
		{
			r.v = std::visit(
				[&](auto& p) -> int {
					if constexpr (std::same_as<std::remove_cvref_t<decltype(p)>, std::monostate>)
						std::abort();
					else
						return do_call(*p, c);
				},
				m);
			r.k = "val";
		}
		catch (const MyEx& e)
		{
			r.k = "exc";
			r.v = e.uid;
		}
		catch (const UnmatchedEx& e)
		{
			r.k = "unm";
			r.v = e.rep;
			r.v2 = e.serial == exSerial ? 1 : 0;
		}
		catch (const MatcherEx& e)
		{
			r.k = "matcher";
			r.v = e.id;
		}
		catch (const PlainEx& e)
		{
			r.k = "matcher";
			r.v = e.id;
		}
		catch (...)
		{
			r.k = "other";
		}
		return r;
	}

	// Operations on slots that hold nothing (because an earlier creation was rejected) are skipped silently.
	void exec(const std::string& line, bool nested = false)
	{
		std::istringstream is{line};
		std::string op{};
		is >> op;
		auto& w = W();

		if (op == "mock")
		{
			int m, k;
			is >> m >> k;
			w.shells[m] = std::monostate{};
			w.mocks[m] = make_mock(k);
			emit("{\"op\":\"mock\",\"m\":" + std::to_string(m) + ",\"kind\":" + std::to_string(k) + tail());
		}
		else if (op == "dmock")
		{
			int m;
			is >> m;
			const auto r = guarded([&] { w.mocks[m] = std::monostate{}; });
			emit("{\"op\":\"dmock\",\"m\":" + std::to_string(m) + ",\"res\":" + r + tail());
		}
		else if (op == "mvmock" || op == "mamock")
		{
			// mvmock m m2 keep: the moved-from mock stays and can be assigned to later
			int m, m2, keep{};
			is >> m >> m2 >> keep;
			if (op == "mamock" && w.mocks[m2].index() == 0)
			{
				w.mocks[m2] = std::move(w.shells[m2]);
				w.shells[m2] = std::monostate{};
			}
			if (w.mocks[m].index() == 0 || m == m2 || (op == "mamock" && w.mocks[m2].index() != w.mocks[m].index()))
				return;
			const auto r = guarded([&] {
				std::visit(
					[&](auto& p) {
						using P = std::remove_cvref_t<decltype(p)>;
						if constexpr (!std::same_as<P, std::monostate>)
						{
							if (op == "mvmock")
							{
								auto n = std::make_unique<typename P::element_type>(std::move(*p));
								w.mocks[m2] = std::move(n);
							}
							else
								*std::get<P>(w.mocks[m2]) = std::move(*p);
						}
					},
					w.mocks[m]);
				if (keep)
					w.shells[m] = std::move(w.mocks[m]);
				w.mocks[m] = std::monostate{};
			});
			emit(
				"{\"op\":\"" + op + "\",\"m\":" + std::to_string(m) + ",\"m2\":" + std::to_string(m2) + ",\"res\":" + r
				+ tail());
		}
		else if (op == "swmock")
		{
			int m, m2;
			is >> m >> m2;
			if (w.mocks[m].index() == 0 || m == m2 || w.mocks[m].index() != w.mocks[m2].index())
				return;
			const auto r = guarded([&] {
				std::visit(
					[&](auto& p) {
						using P = std::remove_cvref_t<decltype(p)>;
						if constexpr (!std::same_as<P, std::monostate>)
							std::swap(*std::get<P>(w.mocks[m2]), *p);
					},
					w.mocks[m]);
			});
			emit(
				"{\"op\":\"swmock\",\"m\":" + std::to_string(m) + ",\"m2\":" + std::to_string(m2) + ",\"res\":" + r
				+ tail());
		}
		else if (op == "seq")
		{
			int s, k;
			is >> s >> k;
			Seq q{};
			q.sid = w.nextSid++;
			long long tag{};
			if (k == 0)
			{
				auto p = std::make_unique<LazySequence>();
				tag = static_cast<long long>(p->tag());
				q.s = std::move(p);
			}
			else
			{
				auto p = std::make_unique<GreedySequence>();
				tag = static_cast<long long>(p->tag());
				q.s = std::move(p);
			}
			w.seqTags[tag] = q.sid;
			w.seqs[s] = std::move(q);
			emit("{\"op\":\"seq\",\"s\":" + std::to_string(s) + ",\"kind\":" + std::to_string(k) + tail());
		}
		else if (op == "dseq")
		{
			int s;
			is >> s;
			if (w.seqs[s].s.index() == 0)
				return;
			const auto r = guarded([&] { w.seqs[s].s = std::monostate{}; });
			emit("{\"op\":\"dseq\",\"s\":" + std::to_string(s) + ",\"res\":" + r + tail());
		}
		else if (op == "exp")
		{
			// exp x m expr arity argk tk ta tb spell pol psat fin order | nseq seqs.. | nargs (t v).. | npol (t v).. | nsfx ids..
			const auto v = ints_of(is);
			std::size_t i{};
			ExpSpec s{};
			s.x = v.at(i++);
			s.m = v.at(i++);
			s.expr = v.at(i++);
			s.arity = v.at(i++);
			s.argk = v.at(i++);
			s.tk = v.at(i++);
			s.ta = v.at(i++);
			s.tb = v.at(i++);
			s.spell = v.at(i++);
			s.pol = v.at(i++);
			s.psat = v.at(i++);
			s.fin = v.at(i++);
			s.order = v.at(i++);
			for (int n = v.at(i++); n > 0; --n)
				s.seqs.push_back(v.at(i++));
			int id = 0;
			const auto atom = [&] {
				Atom a{};
				a.t = v.at(i++);
				a.v = v.at(i++);
				a.id = ++id;
				return a;
			};
			for (int n = v.at(i++); n > 0; --n)
				s.argAtoms.push_back(atom());
			for (int n = v.at(i++); n > 0; --n)
				s.polAtoms.push_back(atom());
			for (int n = v.at(i++); n > 0; --n)
				s.sfx.push_back(v.at(i++));
			s.uid = w.nextUid;
			if (w.mocks[s.m].index() == 0 || w.exps[s.x])
				return;
			for (const int q : s.seqs)
				if (w.seqs[q].s.index() == 0)
					return;
			std::vector<int> sids{};
			for (const int q : s.seqs)
				sids.push_back(w.seqs.at(q).sid);
			w.psat[s.uid] = s.psat;
			const auto r = guarded([&] {
				std::visit(
					[&](auto& p) {
						if constexpr (!std::same_as<std::remove_cvref_t<decltype(p)>, std::monostate>)
							w.exps[s.x] = new ScopedExpectation{make(*p, s)};
						else
							std::abort();
					},
					w.mocks.at(s.m));
			});
			if (r == "\"ok\"")
			{
				w.owner[s.x] = s.uid;
				++w.nextUid;
			}
			const auto atoms = [](const std::vector<Atom>& as) {
				std::string q{"["};
				for (const auto& a : as)
					q += (q.size() > 1 ? "," : "") + std::string("[") + std::to_string(a.t) + "," + std::to_string(a.v)
						+ "," + std::to_string(a.id) + "]";
				return q + "]";
			};
			emit(
				"{\"op\":\"exp\",\"x\":" + std::to_string(s.x) + ",\"m\":" + std::to_string(s.m) + ",\"expr\":"
				+ std::to_string(s.expr) + ",\"arity\":" + std::to_string(s.arity) + ",\"argk\":"
				+ std::to_string(s.argk) + ",\"tk\":" + std::to_string(s.tk) + ",\"ta\":" + std::to_string(s.ta)
				+ ",\"tb\":" + std::to_string(s.tb) + ",\"pol\":" + std::to_string(s.pol) + ",\"psat\":"
				+ std::to_string(s.psat) + ",\"fin\":" + std::to_string(s.fin) + ",\"seqs\":" + ints(s.seqs)
				+ ",\"sids\":" + ints(sids) + ",\"aa\":" + atoms(s.argAtoms) + ",\"pa\":" + atoms(s.polAtoms)
				+ ",\"sfx\":" + ints(s.sfx) + ",\"uid\":" + std::to_string(s.uid) + ",\"res\":" + r + tail());
		}
		else if (op == "psat")
		{
			int x, b;
			is >> x >> b;
			if (!w.exps[x] || w.owner[x] == 0)
				return;
			w.psat[w.owner.at(x)] = b;
			emit("{\"op\":\"psat\",\"x\":" + std::to_string(x) + ",\"b\":" + std::to_string(b) + tail());
		}
		else if (op == "call")
		{
			// call m expr loc args..
			const auto v = ints_of(is);
			CallSpec c{};
			const int m = v.at(0);
			c.expr = v.at(1);
			c.loc = call_loc(v.at(2));
			c.noLoc = v.at(2) % loc_count == loc_count - 1;
			c.args.assign(v.begin() + 3, v.end());
			if (w.mocks[m].index() == 0 || (nested && int(w.mocks[m].index()) - 1 != w.defKind[m]))
				return;
			Frame f{};
			f.head = "\"m\":" + std::to_string(m) + ",\"expr\":" + std::to_string(c.expr) + ",\"ln\":"
				+ std::to_string(loc_count + v.at(2) % loc_count) + ",\"args\":" + ints(c.args);
			frames.push_back(std::move(f));
			const CallResult r = call(w.mocks.at(m), c);
			ensure_verdict();
			const Frame done = frames.back();
			frames.pop_back();
			emit(
				"{\"op\":\"ret\",\"m\":" + std::to_string(m) + ",\"k\":\"" + r.k + "\",\"v\":" + std::to_string(r.v)
				+ ",\"v2\":" + std::to_string(r.v2) + ",\"nv\":" + std::to_string(done.verdicts) + ",\"args\":"
				+ ints(c.args) + ",\"log\":[" + done.log + "]" + tail());
		}
		else if (op == "burst")
		{
			// burst m expr n args..: n equal calls; only the run-length encoded results are recorded
			const auto v = ints_of(is);
			CallSpec c{};
			const int m = v.at(0);
			c.expr = v.at(1);
			const int n = v.at(2);
			c.loc = call_loc(0);
			c.args.assign(v.begin() + 3, v.end());
			std::vector<std::pair<std::string, int>> runs{};
			FILE* const keep = out;
			static FILE* const null = std::fopen("/dev/null", "w");
			for (int i = 0; i < n; ++i)
			{
				frames.push_back({});
				out = null;
				const CallResult r = call(w.mocks.at(m), c);
				out = keep;
				frames.pop_back();
				const std::string key = "\"" + r.k + "\"," + std::to_string(r.v);
				if (!runs.empty() && runs.back().first == key)
					++runs.back().second;
				else
					runs.emplace_back(key, 1);
			}
			std::string rs{"["};
			for (const auto& [k, cnt] : runs)
				rs += (rs.size() > 1 ? "," : "") + std::string("[") + k + "," + std::to_string(cnt) + "]";
			emit(
				"{\"op\":\"burst\",\"m\":" + std::to_string(m) + ",\"expr\":" + std::to_string(c.expr) + ",\"n\":"
				+ std::to_string(n) + ",\"args\":" + ints(c.args) + ",\"runs\":" + rs + "]" + tail());
		}
		else if (op == "del")
		{
			int x;
			is >> x;
			if (!w.exps[x])
				return;
			const int uid = w.owner[x];
			if (std::ranges::find(w.active, uid) != w.active.end())
				return; // not from its own side effect
			const auto r = guarded([&] { destroy_slot(x); });
			emit(
				"{\"op\":\"del\",\"x\":" + std::to_string(x) + ",\"uid\":" + std::to_string(uid) + ",\"res\":" + r
				+ tail());
		}
		else if (op == "mv")
		{
			// mv x y keep: a moved-from object that is kept can be destroyed or assigned to later
			int x, y, keep{};
			is >> x >> y >> keep;
			if (!w.exps[x] || w.exps[y])
				return;
			const auto r = guarded([&] {
				w.exps[y] = new ScopedExpectation{std::move(*w.exps[x])};
				w.owner[y] = w.owner[x];
				w.owner[x] = 0;
				if (!keep)
					destroy_slot(x);
			});
			emit("{\"op\":\"mv\",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + ",\"res\":" + r + tail());
		}
		else if (op == "mva")
		{
			int x, y, keep{};
			is >> x >> y >> keep;
			if (!w.exps[x] || !w.exps[y])
				return;
			if (x != y)
			{
				w.owner[y] = w.owner[x];
				w.owner[x] = 0;
			}
			const auto r = guarded([&] { *w.exps[y] = std::move(*w.exps[x]); });
			emit("{\"op\":\"mva\",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + ",\"res\":" + r + tail());
			// what the moved-from object reports is left to the next event
			if (x != y && !keep)
				guarded([&] { destroy_slot(x); });
		}
		else if (op == "swap")
		{
			int x, y;
			is >> x >> y;
			if (!w.exps[x] || !w.exps[y])
				return;
			std::swap(w.owner[x], w.owner[y]);
			const auto r = guarded([&] { std::swap(*w.exps[x], *w.exps[y]); });
			emit("{\"op\":\"swap\",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + ",\"res\":" + r + tail());
		}
		else if (op == "unw")
		{
			// unw <op>: the operation happens while an unrelated exception is unwinding the stack
			std::string rest{};
			std::getline(is, rest);
			struct Unwind
			{
				const std::string& line;
				bool nested;

				~Unwind() noexcept(false) { exec(line, nested); }
			};
			try
			{
				const Unwind guard{rest, nested};
				throw 42;
			}
			catch (int)
			{
			}
		}
		else if (op == "thr")
		{
			// thr <op>: the operation happens on a thread of its own, which is joined at once
			std::string rest{};
			std::getline(is, rest);
			std::thread{[&] { exec(rest, nested); }}.join();
		}
		else if (op == "rep")
		{
			int id, thr;
			is >> id >> thr;
			install_reporter<RecReporter>(id);
			throwUnfulfilled = thr != 0;
			emit("{\"op\":\"rep\",\"id\":" + std::to_string(id) + ",\"thr\":" + std::to_string(thr) + tail());
		}
		else if (op == "def")
		{
			int k;
			is >> k;
			std::string rest{};
			std::getline(is, rest);
			w.stored[k] = rest;
			for (const auto& [m, a] : w.mocks)
				w.defKind[m] = int(a.index()) - 1;
			emit("{\"op\":\"def\"" + tail());
		}
		else
		{
			std::fprintf(stderr, "unknown op %s\n", op.c_str());
			std::exit(3);
		}
	}

	void run_stored(int uid, int k)
	{
		const auto it = W().stored.find(k);
		if (it == W().stored.end())
			return;
		const std::string line = it->second;
		W().stored.erase(it); // at most once
		W().active.push_back(uid);
		exec(line, true);
		W().active.pop_back();
	}

	void reset_world()
	{
		auto& w = W();
		for (auto& [x, e] : w.exps)
			if (e)
				guarded([&] { destroy_slot(x); });
		w.mocks.clear();
		w.exps.clear();
		w.seqs.clear();
		w = World{};
		retire.clear();
		strayVerdicts.clear();
		frames.clear();
		exSerial = 0;
	}
}

int main(int argc, char** argv)
{
	using namespace mx;
	if (argc < 2)
		return 2;
	std::ifstream in{argv[1]};
	if (argc > 2)
	{
		out = std::fopen(argv[2], "w");
		if (!out)
			return 2;
	}
	std::string line{};
	while (std::getline(in, line))
	{
		if (line.empty())
			continue;
		if (line[0] == 'S')
		{
			// start of a script; everything of the previous one has been retired by its explicit operations
			install_reporter<RecReporter>(0);
			throwUnfulfilled = false;
			reset_world();
			install_reporter<RecReporter>(1);
			emit("{\"op\":\"start\",\"id\":" + line.substr(2) + "}");
			continue;
		}
		exec(line);
	}
	emit("{\"op\":\"end\"}");
	return 0;
}
