// Executor for operation scripts over the real mimic++ engine.
// It uses the public API only and writes one JSON event per line (see DESIGN.md, "trace format").
#pragma once

#include "mimic++/mimic++.hpp"

#include <cstdio>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <source_location>
#include <string>
#include <variant>
#include <vector>

namespace mx
{
	using namespace mimicpp;

	struct MyEx
	{
		int uid;
	};

	struct MatcherEx
		: std::runtime_error
	{
		int id;

		explicit MatcherEx(int i)
			: std::runtime_error{"matcher-" + std::to_string(i)},
			id{i}
		{
		}
	};

	// not derived from std::exception
	struct PlainEx
	{
		int id;
	};

	[[noreturn]] inline void throw_matcher(int id)
	{
		if (id % 2 == 0)
			throw MatcherEx{id};
		throw PlainEx{id};
	}

	struct UnmatchedEx
	{
		int rep;
		int serial;
	};

	struct UnfulfilledEx
	{
		int rep;
		int serial;
	};

	// atoms: 0 any 1 eq 2 ne 3 lt 4 le 5 gt 6 ge 7 throw-if-eq-else-true 8 throw always 9 never
	struct Atom
	{
		int t{};
		int v{};
		int id{};

		bool eval(int x) const
		{
			switch (t)
			{
			case 0: return true;
			case 1: return x == v;
			case 2: return x != v;
			case 3: return x < v;
			case 4: return x <= v;
			case 5: return x > v;
			case 6: return x >= v;
			case 7: if (x == v) throw_matcher(id);
				return true;
			case 8: throw_matcher(id);
			default: return false;
			}
		}
	};

	struct DynMatcher
	{
		Atom atom{};

		bool matches(const int& x) const { return atom.eval(x); }

		std::string describe() const
		{
			return "dyn " + std::to_string(atom.t) + " " + std::to_string(atom.v);
		}
	};

	struct Proj
	{
		int operator()(int& x) const { return -x; }
	};

	inline Atom rdAtom(const int* p) { return {p[0], p[1], p[2]}; }

	struct ExpSpec
	{
		int x{};      // owner slot
		int m{};      // mock slot
		int expr{};   // object expression used for expect_call
		int arity{};
		int argk{};   // 0 dyn matcher, 1 direct value, 2 wildcard
		std::vector<Atom> argAtoms{}; // one per argument
		int tk{};     // 0 default 1 times(a,b) 2 times(a) 3 at_least 4 at_most 5 once 6 twice
		int ta{};
		int tb{};
		int spell{};
		std::vector<int> seqs{};
		int pol{};    // policy shape
		std::vector<Atom> polAtoms{}; // [0] = tag policy; further: extra arg requirements
		int psat{1};  // is_satisfied of the tag policy
		int fin{};
		int order{};
		std::vector<int> sfx{};       // per side effect: -1 log only, else stored op
		int uid{};
	};

	struct World;
	World& W();

	void log_side(int uid, int k, std::vector<int> args);
	void log_fin(int uid, std::vector<int> args);
	void run_stored(int uid, int k);
	// source locations by number; the last ones stand for those that the compiler fills in at the noted lines
	constexpr int loc_count = 8;
	void note_line(int i, int line, const char* file);
	std::source_location exp_loc(int i);
	std::source_location call_loc(int i);
	bool tag_satisfied(int uid) noexcept;

	// Custom policy: carries the identity of the expectation into reports, is a requirement and may be unsatisfied
	struct Tag
	{
		int uid{};
		Atom atom{};

		bool is_satisfied() const noexcept { return tag_satisfied(uid); }

		template <typename R, typename... A>
		bool matches(const call::Info<R, A...>& info) const
		{
			int x{};
			if constexpr (0 < sizeof...(A))
				x = std::get<0>(info.args).get();
			return atom.eval(x);
		}

		std::optional<StringT> describe() const { return "tag:" + std::to_string(uid); }

		template <typename R, typename... A>
		void consume(const call::Info<R, A...>&)
		{
			log_side(uid, 0, {});
		}
	};

	struct Side
	{
		int uid;
		int k;      // position 1..
		int stored; // nested op or -1

		template <typename... A>
		void operator()(A&... a) const
		{
			log_side(uid, k, {a...});
			if (stored >= 0)
				run_stored(uid, stored);
		}
	};

	struct FinFn
	{
		int uid;

		template <typename... A>
		int operator()(A&... a) const
		{
			log_fin(uid, {a...});
			return uid;
		}
	};

	using K0 = Mock<int(int)>;
	using K1 = Mock<int(int)&, int(int) const&, int(int)&&, int(int) const&&>;
	using K2 = Mock<int(int), int(int) const>;
	using K3 = Mock<int(int), int(int, int), int(int, int, int)>;
	using K4 = Mock<void(int)>;
	using K5 = Mock<int(int, int)>;
	using K6 = Mock<int(int)&, int(int)&&>;
	using K7 = Mock<int(int) const, int(int, int), int(int, int) const>;
	using K8 = Mock<int(int) noexcept, int(int) const noexcept>;
	using K9 = Mock<int(int)& noexcept, int(int) const& noexcept, int(int)&& noexcept, int(int) const&& noexcept>;
	using K10 = Mock<int(int) const&, int(int)&&>;
	using K11 = Mock<int(int), int(int, int) noexcept>;
	using K12 = Mock<int()>;
	using AnyMock = std::variant<
		std::monostate, std::unique_ptr<K0>, std::unique_ptr<K1>, std::unique_ptr<K2>, std::unique_ptr<K3>,
		std::unique_ptr<K4>, std::unique_ptr<K5>, std::unique_ptr<K6>, std::unique_ptr<K7>, std::unique_ptr<K8>,
		std::unique_ptr<K9>, std::unique_ptr<K10>, std::unique_ptr<K11>, std::unique_ptr<K12>>;

	using AnySeq = std::variant<std::monostate, std::unique_ptr<LazySequence>, std::unique_ptr<GreedySequence>>;

	struct Seq
	{
		AnySeq s{};
		int sid{};
	};

	struct World
	{
		std::map<int, AnyMock> mocks{};
		std::map<int, AnyMock> shells{}; // moved-from mocks
		std::map<int, Seq> seqs{};
		std::map<int, ScopedExpectation*> exps{}; // raw: the destructor may throw
		std::map<int, int> owner{}; // slot -> uid
		std::map<int, int> psat{};  // uid -> satisfied flag of its tag policy
		int nextUid{1};
		int nextSid{1};
		std::map<long long, int> seqTags{};
		std::map<int, std::string> stored{};
		std::vector<int> active{}; // expectations whose side effects are running
		std::map<int, int> defKind{}; // kinds of the mocks when the last operation was stored
	};

	// creation; one translation unit per group
	template <typename M>
	ScopedExpectation make(M& mock, const ExpSpec& s);

	struct CallSpec
	{
		int expr{};
		std::vector<int> args{};
		std::source_location loc{};
		bool noLoc{};
	};

	struct CallResult
	{
		std::string k{};
		int v{};
		int v2{};
	};

	template <typename M>
	int do_call(M& mock, const CallSpec& c); // may throw

	LazySequence* lazy_of(int slot);
	GreedySequence* greedy_of(int slot);
	bool seq_is_lazy(int slot);
}
