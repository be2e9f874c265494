// One mock used by several threads: follows schedules of spec/Registry.tla, or lets programs run freely.
// Script lines: E <op> (main thread), B <t> <wait> <op>, G <t> <wait> (thread t goes on to where user code runs next; wait: mask of the
// threads that are expected to wait for a lock then), P <t> <op> (an operation of a program), R (run the programs).
// Operations: C <arg>, X <slot> <pattern> <min> <max>, D <slot>.
#include "mimic++/mimic++.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace
{
	using namespace mimicpp;
	using namespace std::chrono_literals;

	struct Failed {};

	struct Op
	{
		char op{};
		int x{}, a{}, min{}, max{};
	};

	struct Event
	{
		long stamp{};
		int t{};
		bool invoke{};
		Op o{};
		std::string v{};
		std::string ids{};
	};

	std::atomic<long> stamps{};
	bool gating{};

	// a thread of the script
	struct Worker
	{
		std::mutex mx{};
		std::condition_variable cv{};
		enum { idle, running, gate, quit } at{idle};
		bool go{};
		std::function<void()> job{};
		std::vector<Event> events{}; // only touched by the thread, and by the main thread while it is idle
		std::thread thread{};
	};
	std::array<Worker, 4> workers{}; // [0] is the main thread

	thread_local int me{};
	thread_local bool scanned{};
	thread_local std::string v{}, ids{};

	// user code runs here
	void point()
	{
		if (!gating || me == 0)
			return;
		Worker& w = workers[me];
		std::unique_lock lock{w.mx};
		w.at = Worker::gate;
		w.cv.notify_all();
		w.cv.wait(lock, [&] { return w.go; });
		w.go = false;
		w.at = Worker::running;
	}

	class Pattern
	{
	public:
		Pattern(int x, int pat) : m_X{x}, m_Pat{pat} {}
		static constexpr bool is_satisfied() noexcept { return true; }
		bool matches(const call::Info<int, int>& call) const
		{
			if (!std::exchange(scanned, true))
				point();
			return m_Pat == 0 || std::get<0>(call.args).get() == m_Pat;
		}
		std::optional<StringT> describe() const { return "slot " + std::to_string(m_X); }
		static constexpr void consume(const call::Info<int, int>&) noexcept {}

	private:
		int m_X;
		int m_Pat;
	};

	template <typename Descriptions>
	std::string slotOf(const Descriptions& ds)
	{
		for (const auto& d : ds)
		{
			const std::optional<StringT>* s{};
			if constexpr (requires { d.description; })
				s = &d.description;
			else
				s = &d;
			if (*s && (*s)->starts_with("slot "))
				return (*s)->substr(5);
		}
		return "-1";
	}

	class Rec final : public IReporter
	{
		[[noreturn]] static void miss(const char* what, const std::vector<MatchReport>& rs)
		{
			v = what;
			ids.clear();
			for (const MatchReport& r : rs)
				ids += (ids.empty() ? "" : ",") + slotOf(r.expectationReports);
			point();
			throw Failed{};
		}
		[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport> rs) override { miss("none", rs); }
		[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport> rs) override { miss("inapp", rs); }
		void report_full_match(CallReport, MatchReport) noexcept override { point(); }
		void report_unfulfilled_expectation(ExpectationReport r) override
		{
			v = "unful";
			ids += (ids.empty() ? "" : ",") + slotOf(r.expectationDescriptions);
			point();
		}
		void report_error(StringT) override { v = "error"; }
		void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override { v = "unhandled"; }
	};

	std::unique_ptr<Mock<int(int)>> mock{};
	std::array<ScopedExpectation*, 48> slots{};

	void perform(const Op& o)
	{
		scanned = false;
		v.clear();
		ids.clear();
		auto& events = workers[me].events;
		events.push_back({stamps.fetch_add(1, std::memory_order_relaxed), me, true, o, "", ""});
		switch (o.op)
		{
		case 'C':
			try
			{
				const int r = (*mock)(o.a);
				if (!v.empty())
					v = "returned after " + v;
				else
					v = "ok";
				ids = std::to_string(r);
			}
			catch (const Failed&)
			{
			}
			break;
		case 'X':
			slots[o.x] = new ScopedExpectation{
				mock->expect_call(matches::_)
				and expect::times(o.min, o.max)
				and Pattern{o.x, o.a}
				and finally::returns_result_of(
					[x = o.x] {
						point();
						return x;
					})};
			if (v.empty())
				v = "made";
			break;
		case 'D':
			delete std::exchange(slots[o.x], nullptr);
			if (v.empty())
				v = "gone";
			break;
		default:
			std::_Exit(3);
		}
		events.push_back({stamps.fetch_add(1, std::memory_order_relaxed), me, false, o, v, ids});
	}

	void loop(int t)
	{
		me = t;
		Worker& w = workers[t];
		std::unique_lock lock{w.mx};
		while (true)
		{
			w.cv.wait(lock, [&] { return w.at == Worker::quit || (w.at == Worker::running && w.job); });
			if (w.at == Worker::quit)
				return;
			lock.unlock();
			w.job();
			lock.lock();
			w.job = nullptr;
			w.at = Worker::idle;
			w.cv.notify_all();
		}
	}

	void start(int t, std::function<void()> job)
	{
		Worker& w = workers[t];
		if (!w.thread.joinable())
			w.thread = std::thread{loop, t};
		const std::scoped_lock lock{w.mx};
		w.job = std::move(job);
		w.at = Worker::running;
		w.cv.notify_all();
	}

	bool isIdle(int t)
	{
		const std::scoped_lock lock{workers[t].mx};
		return workers[t].at == Worker::idle;
	}

	// waits until the thread is in user code or done
	bool settle(int t, std::chrono::milliseconds limit)
	{
		Worker& w = workers[t];
		std::unique_lock lock{w.mx};
		return w.cv.wait_for(lock, limit, [&] { return w.at != Worker::running; });
	}

	Op read(std::istringstream& s)
	{
		std::string k{};
		s >> k;
		Op o{};
		o.op = k.empty() ? ' ' : k[0];
		if (o.op == 'C')
			s >> o.a;
		else if (o.op == 'X')
			s >> o.x >> o.a >> o.min >> o.max;
		else if (o.op == 'D')
			s >> o.x;
		if (!s || o.x < 0 || o.x >= static_cast<int>(slots.size()))
			std::_Exit(3);
		return o;
	}

	bool late{};
	int lates{};
	void settleAll(int waiting)
	{
		// if the library waits at other places than specified, do not wait for long every time
		const auto limit = lates < 3 ? 2000ms : 20ms;
		for (int t = 1; t < 4; ++t)
		{
			if (waiting & (1 << t))
				settle(t, 2ms); // it should not get anywhere, but it need not be right now
			else if (!settle(t, limit))
				late = true;
		}
	}

	void letGo(int t)
	{
		Worker& w = workers[t];
		const std::scoped_lock lock{w.mx};
		if (w.at == Worker::gate)
		{
			w.go = true;
			w.at = Worker::running;
			w.cv.notify_all();
		}
	}

	// everybody runs to the end
	void finish(std::ofstream& out)
	{
		const auto limit = std::chrono::steady_clock::now() + 10s;
		for (bool busy = true; busy;)
		{
			busy = false;
			for (int t = 1; t < 4; ++t)
			{
				letGo(t);
				settle(t, 5ms);
				busy = busy || !isIdle(t);
			}
			if (std::chrono::steady_clock::now() > limit)
			{
				out.flush();
				std::fputs("the threads do not come to an end\n", stderr);
				std::_Exit(96);
			}
		}
	}

	void close(std::ofstream& out)
	{
		finish(out);
		for (std::size_t x = 0; x < slots.size(); ++x)
		{
			if (slots[x])
				perform(Op{'D', static_cast<int>(x)});
		}
		std::vector<Event> all{};
		for (Worker& w : workers)
		{
			all.insert(all.end(), w.events.begin(), w.events.end());
			w.events.clear();
		}
		std::ranges::sort(all, {}, &Event::stamp);
		for (const Event& e : all)
		{
			if (e.invoke)
				out << "{\"op\":\"inv\",\"t\":" << e.t << ",\"o\":{\"op\":\"" << e.o.op << "\",\"x\":" << e.o.x << ",\"a\":" << e.o.a
					<< ",\"min\":" << e.o.min << ",\"max\":" << e.o.max << "}}\n";
			else
				out << "{\"op\":\"res\",\"t\":" << e.t << ",\"r\":{\"v\":\"" << e.v << "\",\"ids\":[" << e.ids << "]}}\n";
		}
		lates += late;
		if (late)
			out << "{\"op\":\"late\"}\n";
		out.flush();
	}
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 3;
	install_reporter<Rec>();
	std::ifstream in{argv[1]};
	std::ofstream out{argv[2]};
	std::string line{};
	std::map<int, std::vector<Op>> programs{};
	bool open{};
	while (std::getline(in, line))
	{
		if (line.empty())
			continue;
		std::istringstream s{line};
		std::string k{};
		s >> k;
		int t{}, wait{};
		if (k == "S")
		{
			if (open)
				close(out);
			open = true;
			late = false;
			programs.clear();
			mock = std::make_unique<Mock<int(int)>>();
			int id{};
			s >> id;
			out << "{\"op\":\"start\",\"id\":" << id << "}" << std::endl;
		}
		else if (k == "E")
			perform(read(s));
		else if (k == "B")
		{
			s >> t >> wait;
			const Op o = read(s);
			if (t < 1 || t > 3)
				return 3;
			if (!isIdle(t))
			{
				// it is not where it should be: nothing can be said about the rest
				late = true;
				continue;
			}
			gating = true;
			start(t, [o] { perform(o); });
			settleAll(wait);
		}
		else if (k == "G")
		{
			s >> t >> wait;
			if (t < 1 || t > 3)
				return 3;
			letGo(t);
			settleAll(wait);
		}
		else if (k == "P")
		{
			s >> t;
			programs[t].push_back(read(s));
		}
		else if (k == "R")
		{
			finish(out);
			gating = false;
			static std::atomic<int> ready{};
			ready.store(0);
			const int n = static_cast<int>(programs.size());
			for (auto& [w, ops] : programs)
				start(w, [&ops, n] {
					ready.fetch_add(1);
					while (ready.load() < n)
						;
					for (const Op& o : ops)
						perform(o);
				});
			finish(out);
		}
		else
			return 3;
	}
	if (open)
		close(out);
	out << "{\"op\":\"end\"}" << std::endl;
	for (Worker& w : workers)
	{
		if (w.thread.joinable())
		{
			{
				const std::scoped_lock lock{w.mx};
				w.at = Worker::quit;
				w.cv.notify_all();
			}
			w.thread.join();
		}
	}
	mock.reset();
	return 0;
}
