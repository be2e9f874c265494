#include "mimic++/mimic++.hpp"

#include <cstdio>
#include <fstream>
#include <functional>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace wx
{
	using namespace mimicpp;

	struct Base
	{
		int v{};

		explicit Base(int x) : v{x} {}
		Base() = default;
		~Base() noexcept(false) { }
		Base(const Base&) = default;
		Base& operator =(const Base&) = default;
		Base(Base&& o) noexcept(false) : v{std::exchange(o.v, -1)} {}
		Base& operator =(Base&& o) noexcept(false)
		{
			v = std::exchange(o.v, -1);
			return *this;
		}
	};

	// destruction and moves do not throw
	struct NBase
	{
		int v{};

		explicit NBase(int x) noexcept : v{x} {}
		NBase(const NBase& o) : v{o.v} {}
		NBase& operator =(const NBase& o)
		{
			v = o.v;
			return *this;
		}
		NBase(NBase&& o) noexcept : v{std::exchange(o.v, -1)} {}
		NBase& operator =(NBase&& o) noexcept
		{
			v = std::exchange(o.v, -1);
			return *this;
		}
	};

	struct NVBase : NBase
	{
		using NBase::NBase;
		virtual ~NVBase() = default;
		NVBase(const NVBase&) = default;
		NVBase& operator =(const NVBase&) = default;
		NVBase(NVBase&&) = default;
		NVBase& operator =(NVBase&&) = default;
	};

	struct VBase
	{
		int v{};

		explicit VBase(int x) : v{x} {}
		VBase() = default;
		virtual ~VBase() noexcept(false) { }
		VBase(const VBase&) = default;
		VBase& operator =(const VBase&) = default;
		VBase(VBase&& o) noexcept(false) : v{std::exchange(o.v, -1)} {}
		VBase& operator =(VBase&& o) noexcept(false)
		{
			v = std::exchange(o.v, -1);
			return *this;
		}
	};

	struct Tag
	{
		int uid{};

		bool is_satisfied() const noexcept { return true; }
		template <typename R, typename... A>
		bool matches(const call::Info<R, A...>&) const { return true; }
		std::optional<StringT> describe() const { return "tag:" + std::to_string(uid); }
		template <typename R, typename... A>
		void consume(const call::Info<R, A...>&) {}
	};

	struct None {};
	struct Inapp {};
	struct Boom {};

	static std::string reports{};

	static std::string uidOf(const std::vector<std::optional<StringT>>& ds)
	{
		for (const auto& d : ds)
			if (d && d->rfind("tag:", 0) == 0)
				return d->substr(4);
		return "0";
	}

	static std::string uidOf(const MatchReport& r)
	{
		for (const auto& e : r.expectationReports)
			if (e.description && e.description->rfind("tag:", 0) == 0)
				return e.description->substr(4);
		return "0";
	}

	static void record(const std::string& k, const std::string& uids)
	{
		reports += (reports.empty() ? "" : ",") + ("[\"" + k + "\",[" + uids + "]]");
	}

	static std::string all(const std::vector<MatchReport>& rs)
	{
		std::string r{};
		for (const auto& x : rs)
			r += (r.empty() ? "" : ",") + uidOf(x);
		return r;
	}

	class Reporter final
		: public IReporter
	{
	public:
		[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport> rs) override
		{
			record("none", all(rs));
			throw None{};
		}

		[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport> rs) override
		{
			record("inapp", all(rs));
			throw Inapp{};
		}

		void report_full_match(CallReport, MatchReport r) noexcept override { record("full", uidOf(r)); }
		void report_unfulfilled_expectation(ExpectationReport r) override { record("unf", uidOf(r.expectationDescriptions)); }
		void report_error(StringT) override {}
		void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) noexcept override { record("unhandled", "0"); }
	};

	using L = LifetimeWatcher;
	using R = RelocationWatcher;
	using WL = Watched<Base, L>;
	using WR = Watched<Base, R>;
	using WRL = Watched<Base, R, L>;
	using WVLR = Watched<VBase, L, R>;
	using WVL = Watched<VBase, L>;
	using WVR = Watched<VBase, R>;
	using NL = Watched<NBase, L>;
	using NR = Watched<NBase, R>;
	using NVRL = Watched<NVBase, R, L>;

	struct Obj
	{
		virtual ~Obj() = default;
		virtual void destroy() = 0;
		virtual Obj* copy() = 0;
		virtual Obj* move() = 0;
		virtual void copy_assign(Obj& o) = 0;
		virtual void move_assign(Obj& o) = 0;
		virtual void grow() = 0;
		virtual void exchange(Obj& o) = 0;
		virtual int value() = 0;
		virtual bool final() = 0;
		virtual ScopedExpectation destruct(int uid, const std::vector<int>& q, int fin) = 0;
		virtual ScopedExpectation relocate(int uid, int mn, int mx, const std::vector<int>& q, int fin) = 0;
	};

	static std::optional<LazySequence> lazy{};
	static std::optional<GreedySequence> greedy{};

	template <typename B>
	static ScopedExpectation finish(B&& b, int fin)
	{
		if (fin == 9)
			return ScopedExpectation{std::move(b) and finally::throws(Boom{})};
		return ScopedExpectation{std::move(b)};
	}

	template <typename B>
	static ScopedExpectation complete(B&& b, const std::vector<int>& q, int fin)
	{
		if (q.empty())
			return finish(std::move(b), fin);
		if (q.size() == 2)
			return finish(std::move(b) and expect::in_sequences(*lazy, *greedy), fin);
		if (q[0] == 1)
			return finish(std::move(b) and expect::in_sequence(*lazy), fin);
		return finish(std::move(b) and expect::in_sequence(*greedy), fin);
	}

	template <typename T>
	struct ObjOf final
		: Obj
	{
		T* p;

		explicit ObjOf(T* t) : p{t} {}

		void destroy() override
		{
			T* const t = std::exchange(p, nullptr);
			if constexpr (std::derived_from<T, VBase>)
			{
				VBase* const b = t;
				delete b;
			}
			else if constexpr (std::derived_from<T, NVBase>)
			{
				NVBase* const b = t;
				delete b;
			}
			else
				delete t;
		}

		Obj* copy() override { return new ObjOf{new T(std::as_const(*p))}; }
		Obj* move() override { return new ObjOf{new T(std::move(*p))}; }
		void copy_assign(Obj& o) override { *p = std::as_const(*static_cast<ObjOf&>(o).p); }
		void move_assign(Obj& o) override { *p = std::move(*static_cast<ObjOf&>(o).p); }

		// what a container does that needs other storage
		void grow() override
		{
			T* const t = new T(std::move_if_noexcept(*p));
			destroy();
			p = t;
		}

		void exchange(Obj& o) override
		{
			using std::swap;
			swap(*p, *static_cast<ObjOf&>(o).p);
		}

		bool final() override { return std::is_nothrow_destructible_v<T>; }

		int value() override
		{
			if constexpr (requires { p->v; })
				return p->v;
			else
				return 0;
		}

		ScopedExpectation destruct(int uid, const std::vector<int>& q, int fin) override
		{
			if constexpr (std::derived_from<T, L>)
				return complete(p->expect_destruct() and Tag{uid}, q, fin);
			else
				std::abort();
		}

		ScopedExpectation relocate(int uid, int mn, int mx, const std::vector<int>& q, int fin) override
		{
			if constexpr (std::derived_from<T, R>)
				return complete(p->expect_relocate() and Tag{uid} and expect::times(mn, mx), q, fin);
			else
				std::abort();
		}
	};

	static Obj* make(int kind, int val)
	{
		switch (kind)
		{
		case 1: return new ObjOf<L>{new L{}};
		case 2: return new ObjOf<R>{new R{}};
		case 3: return new ObjOf<WL>{new WL(val)};
		case 4: return new ObjOf<WR>{new WR(val)};
		case 5: return new ObjOf<WRL>{new WRL(val)};
		case 7: return new ObjOf<WVL>{new WVL(val)};
		case 8: return new ObjOf<WVR>{new WVR(val)};
		case 9: return new ObjOf<NL>{new NL(val)};
		case 10: return new ObjOf<NR>{new NR(val)};
		case 11: return new ObjOf<NVRL>{new NVRL(val)};
		default: return new ObjOf<WVLR>{new WVLR(val)};
		}
	}

	struct OnExit
	{
		std::function<void()> f;
		~OnExit() { f(); }
	};
}

int main(int argc, char** argv)
{
	using namespace wx;
	if (argc < 3)
		return 2;
	std::ifstream in{argv[1]};
	FILE* out = std::fopen(argv[2], "w");
	const auto emit = [&](const std::string& s) {
		std::fputs((s + "\n").c_str(), out);
		std::fflush(out);
	};
	constexpr int nObj = 6;
	constexpr int nExp = 10;
	std::vector<Obj*> ob(nObj, nullptr);
	struct Held
	{
		int uid{};
		std::optional<ScopedExpectation> e{};
	};
	std::vector<Held> ex(nExp);
	int created = 0;

	const auto guarded = [](auto&& f) -> std::string {
		try
		{
			f();
			return "ok";
		}
		catch (const None&) { return "none"; }
		catch (const Inapp&) { return "inapp"; }
		catch (const Boom&) { return "exc"; }
		catch (const std::logic_error&) { return "logic"; }
		catch (...) { return "other"; }
	};
	const auto clear = [&] {
		for (auto& o : ob)
		{
			// some can not be destroyed without terminating, when nobody expects it
			if (o && o->final())
			{
				static std::vector<Obj*> attic{};
				attic.push_back(std::exchange(o, nullptr));
			}
			if (o)
				guarded([&] { o->destroy(); });
			delete o;
			o = nullptr;
		}
		for (auto& e : ex)
			e.e.reset();
		created = 0;
		lazy.reset();
		greedy.reset();
		lazy.emplace();
		greedy.emplace();
	};

	install_reporter<Reporter>();
	std::string line{};
	while (std::getline(in, line))
	{
		std::istringstream is{line};
		std::string op{};
		is >> op;
		if (op == "S")
		{
			int id;
			is >> id;
			clear();
			emit("{\"op\":\"start\",\"id\":" + std::to_string(id) + "}");
			continue;
		}
		// op a b x mn mx fin kind val unw q...
		int a, b, x, mn, mx, fin, kind, val, unw;
		if (!(is >> a >> b >> x >> mn >> mx >> fin >> kind >> val >> unw))
			return 3;
		std::vector<int> q{};
		for (int d; is >> d;)
			q.push_back(d);
		reports.clear();
		const auto perform = [&]() -> std::string {
			return guarded(
				[&] {
					if (op == "new")
						ob[a] = make(kind, val);
					else if (op == "del")
					{
						Obj* const o = std::exchange(ob[a], nullptr);
						std::unique_ptr<Obj> g{o};
						o->destroy();
					}
					else if (op == "cc")
						ob[b] = ob[a]->copy();
					else if (op == "mc")
						ob[b] = ob[a]->move();
					else if (op == "ca")
						ob[b]->copy_assign(*ob[a]);
					else if (op == "ma")
						ob[b]->move_assign(*ob[a]);
					else if (op == "grow")
						ob[a]->grow();
					else if (op == "swap")
						ob[a]->exchange(*ob[b]);
					else if (op == "xd")
					{
						ex[x].e.emplace(ob[a]->destruct(created + 1, q, fin));
						ex[x].uid = ++created;
					}
					else if (op == "xr")
					{
						ex[x].e.emplace(ob[a]->relocate(created + 1, mn, mx, q, fin));
						ex[x].uid = ++created;
					}
					else if (op == "xdel")
						ex[x].e.reset();
					else
						std::exit(3);
				});
		};
		std::string res{};
		if (unw)
		{
			try
			{
				const OnExit g{[&] { res = perform(); }};
				throw 1;
			}
			catch (int) {}
		}
		else
			res = perform();
		std::string sat{}, vals{}, qs{};
		for (int i = 0; i < nExp; ++i)
			if (ex[i].e)
				sat += (sat.empty() ? "" : ",") + ("[" + std::to_string(i) + "," + std::to_string(ex[i].uid) + ","
						+ (ex[i].e->is_satisfied() ? "1" : "0") + "]");
		for (int i = 0; i < nObj; ++i)
			if (ob[i])
				vals += (vals.empty() ? "" : ",") + ("[" + std::to_string(i) + "," + std::to_string(ob[i]->value()) + "]");
		for (const int d : q)
			qs += (qs.empty() ? "" : ",") + std::to_string(d);
		const auto fld = [](const char* n, int v) { return std::string(",\"") + n + "\":" + std::to_string(v); };
		emit(
			"{\"op\":\"" + op + "\"" + fld("a", a) + fld("b", b) + fld("x", x) + fld("mn", mn) + fld("mx", mx) + fld("fin", fin)
			+ fld("kind", kind) + fld("val", val) + fld("unw", unw) + ",\"q\":[" + qs + "],\"res\":\"" + res + "\",\"rr\":["
			+ reports + "],\"sat\":[" + sat + "],\"vals\":[" + vals + "]}");
	}
	clear();
	emit("{\"op\":\"end\"}");
	return 0;
}
