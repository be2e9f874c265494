#include "flow.hpp"

#include <fstream>
#include <sstream>

namespace fx
{
#define FX(I)                                                       \
	template <> ScopedExpectation make<I>(const Spec&);             \
	template <> Outcome do_call<I>(const std::vector<int>&, const std::vector<int>&); \
	template <> void fresh<I>();
	FX(1) FX(2) FX(3) FX(4) FX(5) FX(6) FX(7)

	template <typename F>
	auto dispatch(int sig, F&& f)
	{
		switch (sig)
		{
		case 1: return f(std::integral_constant<int, 1>{});
		case 2: return f(std::integral_constant<int, 2>{});
		case 3: return f(std::integral_constant<int, 3>{});
		case 4: return f(std::integral_constant<int, 4>{});
		case 5: return f(std::integral_constant<int, 5>{});
		case 6: return f(std::integral_constant<int, 6>{});
		default: return f(std::integral_constant<int, 7>{});
		}
	}

	struct Unhandled
	{
	};

	class Reporter final
		: public IReporter
	{
	public:
		[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport>) override { throw Unhandled{}; }
		[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { throw Unhandled{}; }
		void report_full_match(CallReport, MatchReport) noexcept override {}
		void report_unfulfilled_expectation(ExpectationReport) override {}
		void report_error(StringT) override {}
		void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) noexcept override {}
	};

	inline std::string ints(const std::vector<int>& v)
	{
		std::string r{"["};
		for (std::size_t i = 0; i < v.size(); ++i)
			r += (i ? "," : "") + std::to_string(v[i]);
		return r + "]";
	}
}

// script: "S id", "exp sig chain fin val d1..d7", "call v0 v1 v2 r0 r1 r2"; every exp is a fresh expectation on a fresh mock
int main(int argc, char** argv)
{
	using namespace fx;
	if (argc < 3)
		return 2;
	std::ifstream in{argv[1]};
	FILE* out = std::fopen(argv[2], "w");
	const auto emit = [&](const std::string& s) {
		std::fputs((s + "\n").c_str(), out);
		std::fflush(out);
	};
	install_reporter<Reporter>();
	std::optional<ScopedExpectation> exp{};
	Spec s{};
	std::string line{};
	while (std::getline(in, line))
	{
		std::istringstream is{line};
		std::string op{};
		is >> op;
		if (op == "S")
		{
			int id;
			is >> id;
			exp.reset();
			emit("{\"op\":\"start\",\"id\":" + std::to_string(id) + "}");
		}
		else if (op == "exp")
		{
			exp.reset();
			s = Spec{};
			is >> s.sig >> s.chain >> s.fin >> s.val;
			for (int d; is >> d;)
				s.delta.push_back(d);
			dispatch(s.sig, [](auto i) { fresh<i>(); });
			rec = Recorder{};
			rec.ids[&ext] = 40;
			ext.v = 4000;
			fnCalls = 0;
			Spec t = s;
			exp.emplace(
				dispatch(s.sig, [&](auto i) { return make<i>(t); }));
			emit(
				"{\"op\":\"exp\",\"sig\":" + std::to_string(s.sig) + ",\"chain\":" + std::to_string(s.chain) + ",\"fin\":"
				+ std::to_string(s.fin) + ",\"val\":" + std::to_string(s.val) + ",\"delta\":" + ints(s.delta) + "}");
		}
		else if (op == "call")
		{
			std::vector<int> v{};
			for (int d; is >> d;)
				v.push_back(d);
			const std::vector<int> vals(v.begin(), v.begin() + 3), rv(v.begin() + 3, v.end());
			rec.obs.clear();
			fnCalls = 0;
			const Outcome o = dispatch(s.sig, [&](auto i) { return do_call<i>(vals, rv); });
			std::string obs{"["};
			for (const auto& x : rec.obs)
				obs += (obs.size() > 1 ? "," : "") + x;
			emit(
				"{\"op\":\"call\",\"vals\":" + ints(vals) + ",\"rv\":" + ints(rv) + ",\"obs\":" + obs + "],\"res\":" + o.res
				+ ",\"after\":" + ints(o.after) + ",\"copies\":" + std::to_string(o.copies) + ",\"fn\":"
				+ std::to_string(fnCalls) + "}");
		}
	}
	exp.reset();
	emit("{\"op\":\"end\"}");
	return 0;
}
