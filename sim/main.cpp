// Supervisor: distributes seeds over worker processes, confirms, minimises and replays violations, writes the evidence.
#include "exec.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <vector>

using namespace sim;

namespace
{
	constexpr int kMaxWorkers = 16;
	constexpr uint64_t kNone = ~0ull;

	struct Totals
	{
		uint64_t runs, trivial, undecided, failstops, recycled, respawns;
		uint64_t features[64];
		uint64_t events[rt::P_KINDS], switches[rt::P_KINDS];
		uint64_t blockedMutex, blockedEvent, forced, allocs, allocFaults, lockOps, atomicOps, racesChecked;
		uint64_t matcherThrows, matcherCalls, actionThrows, printerThrows, unwinds, ops;
		uint64_t accepted, rejected, leaked, twins;
		uint64_t modes[5], reporters[RK_COUNT], tasks[8];
		uint64_t faultSurfaced;
	};

	struct Slot
	{
		std::atomic<uint64_t> current;	// index of the running program or kNone
		std::atomic<uint64_t> since;	// ms
		Totals t;
	};

	struct Result	// of a single run in a child
	{
		std::atomic<int> state;		// 0 running, 1 ok, 2 violation, 3 fail stop
		char kind[64];
		char msg[2400];
		uint64_t schedHash, histHash;
		int nSched;
		rt::SchedEntry sched[rt::kMaxSched];
	};

	struct Shared
	{
		std::atomic<uint64_t> next;
		std::atomic<uint64_t> limit;	// first index, which isn't of interest anymore
		std::atomic<uint64_t> bad;		// lowest violating index
		std::atomic<int> warmBad;		// lowest warm up program, which causes a violation
		Slot w[kMaxWorkers];
		Result single;
	};

	Shared* g_sh;
	uint64_t* g_hashes;		// per index: history hash (0: trivial)
	uint64_t* g_scheds;
	uint32_t* g_owner;		// per index: the process which has executed the run
	uint64_t g_maxRuns;
	int g_worker = -1;
	int g_warmIndex = -1;
	std::string g_profile;
	uint64_t g_base = 1;
	bool g_verbose = false;

	uint64_t now_ms()
	{
		return static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count());
	}

	template <typename T>
	T* shared_map(std::size_t n)
	{
		void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
		{
			perror("mmap");
			exit(3);
		}
		return static_cast<T*>(p);
	}

	uint64_t seed_of(uint64_t index)
	{
		return (g_base % 1000003) * 100000000ull + index;
	}

	// ------------------------------------------------------------------ rules
	struct Rule
	{
		const char* profile;
		std::vector<uint64_t> any;	// each mask must be hit by at least one feature
		const char* text;
	};
	constexpr uint64_t F(Feature f) { return 1ull << f; }
	const Rule& rule(const std::string& profile)
	{
		static const std::vector<Rule> rules = {
			{"C01", {F(FT_OVERLAP_CALLS)}, "two calls of different tasks on the same expectation collection overlap"},
			{"C02", {F(FT_OVERLAP_DESTROY)}, "an expectation is destroyed while a call it has accepted is running"},
			{"C03", {F(FT_REENTRANT_CALL) | F(FT_REENTRANT_OP) | F(FT_OP_DURING_ACTION) | F(FT_BLOCKED_ACTION)}, "an action re-enters its mock or waits, or another task completes an operation on the mock during an action"},
			{"C04", {F(FT_MATCHER_THREW)}, "at least one matcher throws during a call"},
			{"C05", {F(FT_REJECTED) | F(FT_PRINT_FAILED), F(FT_REJECTED_THEN_ACCEPTED) | F(FT_PRINT_FAILED)}, "a call is rejected or aborted and the history continues with an accepted call"},
			{"C06", {F(FT_ACTION_THREW)}, "a finalizer of an accepted call throws"},
			{"C07", {F(FT_UNFULFILLED)}, "an expectation ends unfulfilled"},
			{"C08", {F(FT_LIMIT_REACHED)}, "a call meets a matching expectation, which is already exhausted"},
			{"C09", {F(FT_SEQ_ACCEPT), F(FT_SEQ_BLOCKED)}, "a sequenced expectation accepts a call and another one is not in turn"},
			{"C10", {F(FT_SEQ_CHOICE) | F(FT_SEQ_CHOICE_MULTI)}, "the strategy has to choose between several applicable members"},
			{"C11", {F(FT_SHADOWED)}, "several applicable expectations compete for one call"},
			{"C12", {F(FT_SIBLINGS), F(FT_VERDICT_FULL)}, "calls are made, while expectations of sibling overloads are alive"},
			{"C13", {F(FT_MOCK_MOVED) | F(FT_MOCK_DEAD_FIRST) | F(FT_SEQ_HANDLE_FIRST)}, "a mock is moved, or a mock or sequence handle dies before its expectations"},
			{"C14", {F(FT_VERDICT_FULL), F(FT_VERDICT_FAIL)}, "accepted and failed calls occur"},
			{"C15", {F(FT_DESTRUCT_ACCEPTED) | F(FT_DESTRUCT_UNMATCHED)}, "the end of a watched identity is reported"},
			{"C16", {F(FT_RELOC_ACCEPTED) | F(FT_RELOC_UNMATCHED)}, "a relocation is reported"},
			{"C17", {F(FT_MULTI_FX), F(FT_ARG_MODIFIED)}, "an accepted call runs several side effects and one of them modifies an argument"},
			{"C18", {F(FT_SEQ_DEATH_BAD)}, "a sequence dies unfinished"},
			{"C19", {F(FT_BAD_BUILD_USED_AFTER)}, "a call is accepted after an incomplete or failing build"},
			{"C20", {F(FT_FAULT)}, "an allocation failure fires inside an operation"},
			{"C21", {F(FT_REPEATED)}, "an expectation accepts several calls after its operands are gone"},
		};
		for (const Rule& r : rules)
			if (profile == r.profile)
				return r;
		static const Rule none{"", {}, "every run"};
		return none;
	}
	bool non_trivial(const Rule& r, uint64_t features)
	{
		for (const uint64_t m : r.any)
			if (!(features & m))
				return false;
		return true;
	}

	// ------------------------------------------------------------------ running programs in this process
	void on_violation(const char* kind, const char* msg)
	{
		const bool failstop = !std::strcmp(kind, "terminate") && alloc_fault_active();
		Result& r = g_sh->single;
		if (g_worker == -2)
		{
			int old = g_sh->warmBad;
			while (g_warmIndex < old && !g_sh->warmBad.compare_exchange_weak(old, g_warmIndex))
				;
			_exit(96);
		}
		if (g_worker >= 0)
		{
			if (failstop)
			{
				Slot& s = g_sh->w[g_worker];
				++s.t.failstops;
				++s.t.runs;
				++s.t.allocFaults;
				s.current = kNone;
				_exit(98);
			}
			const uint64_t idx = g_sh->w[g_worker].current;
			uint64_t old = g_sh->bad;
			while (idx < old && !g_sh->bad.compare_exchange_weak(old, idx))
				;
			if (g_verbose)
				fprintf(stderr, "index %llu: %s: %s\n", static_cast<unsigned long long>(idx), kind, msg);
			_exit(97);
		}
		snprintf(r.kind, sizeof r.kind, "%s", kind);
		snprintf(r.msg, sizeof r.msg, "%s", msg);
		int n = 0;
		const rt::SchedEntry* e = rt::schedule(n);
		std::memcpy(r.sched, e, sizeof(rt::SchedEntry) * static_cast<std::size_t>(n));
		r.nSched = n;
		r.schedHash = rt::schedule_hash();
		r.state = failstop ? 3 : 2;
		if (g_verbose && g_world)
			printf("%s", describe(*g_world).c_str());
		fflush(nullptr);
		_exit(97);
	}

	// function local statics and caches of the code under test are initialized by these
	constexpr int kWarm = 24;
	void warm_program(int k, Program& p)
	{
		generate(g_profile, 0xabcdef00 + static_cast<uint64_t>(k), p);
		p.tasks.resize(std::min<std::size_t>(p.tasks.size(), 1));
		if (p.mode > 1)
			p.mode = 1;
		for (Block& b : p.blocks)
			for (Op& o : b)
				o.fault = 0;
	}
	void warm_up(int n)
	{
		for (int k = 0; k < n; ++k)
		{
			Program p;
			warm_program(k, p);
			g_warmIndex = k;
			World w;
			execute(p, w);
		}
		g_warmIndex = -1;
	}
	// afterwards this process is ready to run programs
	void prepare(int n, bool stay = false)	// stay: with the same threads
	{
		rt::worker_init();
		const int w = g_worker;
		g_worker = -2;
		const bool v = g_verbose;
		g_verbose = false;
		warm_up(n);
		g_worker = w;
		g_verbose = v;
		if (!stay)
			rt::worker_exit();
	}

	// ------------------------------------------------------------------ twins: the same program with one difference, which must not matter
	bool single(const Program& p)
	{
		if (p.mode != 0 || p.tasks.size() > 1)
			return false;
		for (const Block& b : p.blocks)
			for (const Op& o : b)
				if (o.fault || o.kind == OP_CHURN)
					return false;
		return true;
	}
	// (what the user sees of an operation, except for the details of failures)
	std::string seen(const Rec& r, bool details)
	{
		std::string s = std::to_string(r.kind) + " op " + std::to_string(r.opId) + (r.kind == R_CALL ? "" : " of " + std::to_string(r.id)) + ": outcome " + std::to_string(r.outcome) + " " + std::to_string(r.queried);
		if (r.kind == R_CALL && (r.outcome == O_OK || r.outcome == O_ACTION))
			s += " value " + std::to_string(r.outcome == O_OK ? r.result : r.value);
		for (const auto& [inst, n] : r.series)
			s += " series " + std::to_string(inst) + "x" + std::to_string(n);
		for (const Rep& p : r.reps)
		{
			if (p.kind == RP_UNHANDLED && !details)
				continue;
			s += " report " + std::to_string(p.kind);
			if (!details && p.kind != RP_FULL && p.kind != RP_UNFUL)
				continue;
			std::vector<std::string> exps;
			for (const ExpRep& e : p.exps)
				exps.push_back(std::to_string(e.inst) + (details ? "/" + std::to_string(e.state) + "/" + std::to_string(e.count) : ""));
			std::sort(exps.begin(), exps.end());
			for (const std::string& e : exps)
				s += " " + e;
		}
		for (const FxRec& f : r.fx)
			s += " fx " + std::to_string(f.inst) + "." + std::to_string(f.k);
		for (const FinRec& f : r.fin)
			s += " fin " + std::to_string(f.inst);
		return s;
	}
	bool rejected(const Rec& r)
	{
		if (r.kind != R_CALL || r.port >= PT_DESTRUCT || r.parent >= 0 || (r.outcome != O_FAILURE && r.outcome != O_PRINTER) || !r.fx.empty() || !r.fin.empty())
			return false;
		for (const Rep& p : r.reps)
			if (p.kind == RP_FULL)
				return false;
		return true;
	}
	void twin(const Program& p, World& w)
	{
		const bool calls = p.profile == "C05", matchers = p.profile == "C04";
		if ((!calls && !matchers) || (!p.replay && p.seed % 2) || w.matcherCalls || w.limited || !single(p))
			return;
		Program q = p;
		std::set<int> gone;
		if (calls)	// without the rejected calls
		{
			std::map<int, int> runs;
			for (const Rec& r : w.recs)
				++runs[r.opId];
			for (const Rec& r : w.recs)
				if (rejected(r) && runs[r.opId] == 1)
					gone.insert(r.opId);
			for (const Rec& r : w.recs)
				if (r.parent >= 0)
					gone.erase(w.recs[static_cast<std::size_t>(r.parent)].opId);
			for (Block& b : q.blocks)
				std::erase_if(b, [&](const Op& o) { return o.kind == OP_CALL && gone.count(o.id); });
			if (gone.empty())
				return;
		}
		else	// with matchers which do not match instead of throwing
		{
			if (!w.matcherThrows)
				return;
			for (Block& b : q.blocks)
				for (Op& o : b)
					if (o.kind == OP_CREATE && o.mock >= 0 && o.mock < static_cast<int>(p.mocks.size()) && o.ep < PT_DESTRUCT)
					{
						const auto& table = leaves(p.mocks[static_cast<std::size_t>(o.mock)].port);
						if (o.leaf < 0 || o.leaf >= static_cast<int>(table.size()) || table[static_cast<std::size_t>(o.leaf)].m != M_PRED)
							continue;
						if (o.rep > 1 && o.ev)	// (these have different masks)
							return;
						o.a &= ~o.b, o.c &= ~o.d, o.e &= ~o.f;
						o.b = o.d = o.f = 0;
					}
		}
		World v;
		execute(q, v);
		if (v.limited || (matchers && v.matcherThrows))
			return;
		++w.twins;
		auto i = w.recs.begin();
		auto j = v.recs.begin();
		for (;; ++i, ++j)
		{
			while (i != w.recs.end() && gone.count(i->opId))
				++i;
			if (i == w.recs.end() || j == v.recs.end())
				break;
			if (const std::string a = seen(*i, calls), b = seen(*j, calls); a != b)
				rt::violation("history", "op %d: '%s', but '%s' %s", i->opId, a.c_str(), b.c_str(), calls ? "without the rejected calls before" : "if the throwing matchers don't match instead");
		}
		if (i != w.recs.end() || j != v.recs.end())
			rt::violation("history", "a different number of operations %s", calls ? "without the rejected calls" : "if the throwing matchers don't match instead");
	}

	void run_here(const Program& p, World& w)
	{
		execute(p, w);
		std::string error;
		if (!check(w, error))
			rt::violation("history", "%s", error.c_str());
		twin(p, w);
	}

	// ------------------------------------------------------------------ single runs in a fresh child
	struct Outcome
	{
		int state = 0;	// 1 ok, 2 violation, 3 fail stop, 4 hang, 5 broken
		std::string kind, msg;
		uint64_t schedHash = 0, histHash = 0;
		std::vector<rt::SchedEntry> sched;
	};

	Outcome run_child(const Program& p, int timeoutS = 60)
	{
		Result& r = g_sh->single;
		r.state = 0;
		r.nSched = 0;
		fflush(nullptr);
		const pid_t pid = fork();
		if (pid == 0)
		{
			g_worker = -1;
			prepare(p.warm < 0 ? kWarm : p.warm, p.warm >= 0);
			if (p.warm < 0)
				rt::worker_init();
			for (const uint64_t seed : p.before)
			{
				Program q;
				generate(g_profile, seed, q);
				World w;
				run_here(q, w);
			}
			World w;
			run_here(p, w);
			r.schedHash = w.schedHash;
			r.histHash = w.histHash;
			r.nSched = static_cast<int>(w.schedule.size());
			std::memcpy(r.sched, w.schedule.data(), w.schedule.size() * sizeof(rt::SchedEntry));
			r.state = 1;
			if (g_verbose)
				printf("%s", describe(w).c_str());
			fflush(nullptr);
			_exit(0);
		}
		Outcome o;
		if (pid < 0)
		{
			o.state = 5;
			return o;
		}
		const uint64_t start = now_ms();
		int status = 0;
		for (;;)
		{
			const pid_t x = waitpid(pid, &status, WNOHANG);
			if (x == pid)
				break;
			if (now_ms() - start > static_cast<uint64_t>(timeoutS) * 1000)
			{
				kill(pid, SIGKILL);
				waitpid(pid, &status, 0);
				o.state = 4;
				o.kind = "hang";
				o.msg = "the run did not finish";
				return o;
			}
			usleep(300);
		}
		o.state = r.state;
		if (o.state == 0)
		{
			o.state = 5;
			o.kind = "broken";
			o.msg = "the simulated process disappeared without a result (status " + std::to_string(status) + ")";
			return o;
		}
		o.schedHash = r.schedHash;
		o.histHash = r.histHash;
		o.sched.assign(r.sched, r.sched + r.nSched);
		if (o.state >= 2)
		{
			o.kind = r.kind;
			o.msg = r.msg;
		}
		return o;
	}

	// ------------------------------------------------------------------ worker
	[[noreturn]] void worker(int id)
	{
		// this process just provides an initialized state, which the actual workers start with
		Slot& slot = g_sh->w[id];
		slot.current = kNone;
		g_worker = id;
		prepare(kWarm);
		for (;;)
		{
			const pid_t parent = getpid();
			const pid_t pid = fork();
			if (pid < 0)
				_exit(3);
			if (pid == 0)
			{
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				if (getppid() != parent)
					_exit(3);
				break;
			}
			int status = 0;
			while (waitpid(pid, &status, 0) != pid)
				;
			const int code = WIFEXITED(status) ? WEXITSTATUS(status) : 95;
			if (code != 98 && code != 99)
				_exit(code);
			++slot.t.respawns;
		}
		rt::worker_init();
		const Rule& rl = rule(g_profile);
		Totals& t = slot.t;
		for (;;)
		{
			const uint64_t idx = g_sh->next.fetch_add(1);
			if (idx >= g_sh->limit || idx >= g_sh->bad)
				_exit(0);
			slot.since = now_ms();
			slot.current = idx;
			if (idx < g_maxRuns)
				g_owner[idx] = static_cast<uint32_t>(id + 1) << 24 | static_cast<uint32_t>(t.respawns & 0xffffff);
			Program p;
			generate(g_profile, seed_of(idx), p);
			World w;
			run_here(p, w);
			slot.current = kNone;

			++t.runs;
			for (int i = 0; i < FT_COUNT; ++i)
				t.features[i] += w.features >> i & 1;
			for (int i = 0; i < rt::P_KINDS; ++i)
			{
				t.events[i] += w.stats.events[i];
				t.switches[i] += w.stats.switches[i];
			}
			t.blockedMutex += w.stats.blockedOnMutex;
			t.blockedEvent += w.stats.blockedOnEvent;
			t.forced += w.stats.forcedEvents;
			t.allocs += w.stats.allocs;
			t.allocFaults += w.stats.allocFaults;
			t.lockOps += w.stats.lockOps;
			t.atomicOps += w.stats.atomicOps;
			t.racesChecked += w.stats.racesChecked;
			t.matcherThrows += w.matcherThrows;
			t.matcherCalls += w.matcherCalls;
			t.actionThrows += w.actionThrows;
			t.printerThrows += w.printerThrows;
			t.unwinds += w.unwinds;
			t.ops += w.opsRun;
			t.accepted += w.callsAccepted;
			t.rejected += w.callsRejected;
			t.undecided += w.undecided;
			t.twins += w.twins;
			t.leaked += !w.heapClean;
			++t.modes[p.mode];
			++t.reporters[p.reporter];
			++t.tasks[std::min<std::size_t>(p.tasks.size(), 7)];
			if (idx < g_maxRuns)
			{
				g_hashes[idx] = non_trivial(rl, w.features) ? w.histHash | 1 : 0;
				g_scheds[idx] = w.schedHash ? w.schedHash : 1;
			}
			if (rt::heap_low())
			{
				++t.recycled;
				_exit(99);
			}
		}
	}

	// ------------------------------------------------------------------ minimisation
	struct Minimiser
	{
		Program best;
		Outcome out;
		uint64_t deadline;
		int trials = 0;

		bool same(const Outcome& o) const
		{
			return o.state == 2 && o.kind == out.kind;
		}
		bool attempt(Program p)
		{
			if (now_ms() > deadline)
				return false;
			++trials;
			p.replay = true;
			p.entries = best.entries;
			Outcome o = run_child(p, 20);
			if (!same(o) && p.tasks.size() > 1 && p.mode >= 1)
			{
				for (int k = 0; k < 4 && !same(o) && now_ms() < deadline; ++k)
				{
					p.replay = false;
					p.entries.clear();
					p.schedSeed = best.schedSeed + static_cast<uint64_t>(k);
					o = run_child(p, 20);
				}
			}
			if (!same(o))
				return false;
			p.replay = true;
			p.entries = o.sched;
			best = std::move(p);
			out = std::move(o);
			return true;
		}
		void blocks()
		{
			for (std::size_t b = 0; b < best.blocks.size(); ++b)
			{
				std::size_t chunk = best.blocks[b].size();
				while (chunk > 0)
				{
					bool any = false;
					for (std::size_t i = 0; i < best.blocks[b].size();)
					{
						Program p = best;
						auto& blk = p.blocks[b];
						const std::size_t n = std::min(chunk, blk.size() - i);
						blk.erase(blk.begin() + static_cast<long>(i), blk.begin() + static_cast<long>(i + n));
						if (attempt(p))
							any = true;
						else
							i += n;
						if (now_ms() > deadline)
							return;
					}
					if (chunk == 1 && !any)
						break;
					if (!any || chunk > 1)
						chunk = chunk / 2;
					if (chunk == 0 && any)
						chunk = 1;
				}
			}
		}
		void fields()
		{
			for (std::size_t b = 0; b < best.blocks.size(); ++b)
				for (std::size_t i = 0; i < best.blocks[b].size(); ++i)
				{
					const auto tryField = [&](auto&& change) {
						if (i >= best.blocks[b].size())
							return;
						Program p = best;
						Op before = p.blocks[b][i];
						change(p.blocks[b][i]);
						if (std::memcmp(&before, &p.blocks[b][i], sizeof(Op)) != 0)
							attempt(p);
					};
					for (int k = 0; k < 3; ++k)
						tryField([&](Op& o) { o.fx[k] = -1; });
					tryField([](Op& o) { o.fin = -1; });
					tryField([](Op& o) { o.finThrow = 0; });
					tryField([](Op& o) { o.mod = 0; });
					tryField([](Op& o) { o.fault = 0; });
					tryField([](Op& o) { o.ctx = 0; });
					for (int step = best.blocks[b][i].rep; i < best.blocks[b].size() && best.blocks[b][i].rep > 1 && step > 0; step /= 2)
						tryField([step](Op& o) { o.rep = std::max(1, o.rep - step); });
					tryField([](Op& o) { o.b = o.kind == OP_CREATE ? 0 : o.b; });
				}
		}
		void schedule()
		{
			// fewer switches
			std::size_t chunk = std::max<std::size_t>(1, best.entries.size() / 2);
			while (!best.entries.empty() && chunk > 0)
			{
				bool any = false;
				for (std::size_t i = 0; i < best.entries.size();)
				{
					if (now_ms() > deadline)
						return;
					Program p = best;
					const std::size_t n = std::min(chunk, p.entries.size() - i);
					p.entries.erase(p.entries.begin() + static_cast<long>(i), p.entries.begin() + static_cast<long>(i + n));
					p.replay = true;
					++trials;
					const std::size_t before = best.entries.size();
					Outcome o = run_child(p, 20);
					if (same(o) && o.sched.size() < before)
					{
						p.entries = o.sched;
						best = std::move(p);
						out = std::move(o);
						any = true;
					}
					else
						i += n;
				}
				if (chunk == 1 && !any)
					break;
				chunk = chunk > 1 ? chunk / 2 : any ? 1 : 0;
			}
		}
		void compact()
		{
			// drop the blocks nobody refers to
			Program p = best;
			std::vector<char> used(p.blocks.size(), 0);
			std::vector<int> todo = {p.setup, p.teardown};
			todo.insert(todo.end(), p.tasks.begin(), p.tasks.end());
			while (!todo.empty())
			{
				const int b = todo.back();
				todo.pop_back();
				if (b < 0 || used[static_cast<std::size_t>(b)])
					continue;
				used[static_cast<std::size_t>(b)] = 1;
				for (const Op& o : p.blocks[static_cast<std::size_t>(b)])
				{
					todo.insert(todo.end(), {o.fx[0], o.fx[1], o.fx[2], o.fin, o.block});
				}
			}
			for (std::size_t b = 0; b < used.size(); ++b)
				if (!used[b])
					p.blocks[b].clear();
			attempt(p);
		}
		void run()
		{
			if (best.sites)
			{
				Program p = best;
				p.sites = 0;
				attempt(p);
			}
			blocks();
			compact();
			fields();
			blocks();
			compact();
			schedule();
		}
	};

	std::string one_line(std::string s)
	{
		for (char& c : s)
			if (c == '\n' || c == '\r')
				c = ' ';
		return s;
	}

	std::string symbolize(const std::string& msg)
	{
		// adds the source locations of code addresses
		std::string out;
		std::size_t pos = 0;
		char exe[512];
		const ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
		if (n <= 0)
			return out;
		exe[n] = 0;
		while ((pos = msg.find("pc 0x", pos)) != msg.npos)
		{
			const std::string addr = msg.substr(pos + 3, msg.find_first_not_of("0123456789abcdef", pos + 5) - pos - 3);
			pos += 5;
			const std::string cmd = std::string{"addr2line -Cfipe "} + exe + " " + addr + " 2>/dev/null";
			if (FILE* f = popen(cmd.c_str(), "r"))
			{
				char buf[1024];
				while (fgets(buf, sizeof buf, f))
					out += "# " + addr + ": " + buf;
				pclose(f);
			}
		}
		return out;
	}

	std::string self_exe()
	{
		char exe[512];
		const ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
		return n > 0 ? std::string(exe, static_cast<std::size_t>(n)) : std::string{};
	}

	int system_exit(const std::string& cmd)
	{
		const int r = system(cmd.c_str());
		return WIFEXITED(r) ? WEXITSTATUS(r) : -1;
	}

	// ------------------------------------------------------------------ json
	std::string quoted(const std::string& s)
	{
		std::string o = "\"";
		for (const char c : s)
			switch (c)
			{
			case '"': o += "\\\""; break;
			case '\\': o += "\\\\"; break;
			case '\n': o += "\\n"; break;
			case '\t': o += "\\t"; break;
			default:
				if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126)
					o += '?';
				else
					o += c;
			}
		return o + "\"";
	}

	struct Options
	{
		std::string evidence, replayDir = "replays", tier = "quick", findings;
		uint64_t runs = 1000;
		int jobs = 8;
		int timeLimit = 200;
		bool noEvidence = false;
	};

	bool read_file(const std::string& path, std::string& text)
	{
		std::ifstream f{path};
		if (!f)
			return false;
		std::stringstream s;
		s << f.rdbuf();
		text = s.str();
		return true;
	}

	int replay(const std::string& path)
	{
		std::string text, error;
		Program p;
		if (!read_file(path, text) || !from_text(text, p, error))
		{
			fprintf(stderr, "can't read %s: %s\n", path.c_str(), error.c_str());
			return 3;
		}
		g_profile = p.profile;
		const Outcome o = run_child(p, 120);
		if (o.state == 1)
		{
			printf("OK: the replay does not violate anything\n");
			return 0;
		}
		if (o.state == 3)
		{
			printf("OK: the program stops at once because of a failing allocation\n");
			return 0;
		}
		printf("%s: %s\n%s", o.kind.c_str(), o.msg.c_str(), symbolize(o.msg).c_str());
		// the same as recorded?
		const std::string want = "# violation " + o.kind + ": " + one_line(o.msg) + "\n";
		const bool recorded = text.find("# violation ") != text.npos;
		if (o.state == 5 && !recorded)
			return 3;
		if (recorded && text.find(want) == text.npos)
		{
			printf("the violation differs from the recorded one\n");
			return 4;
		}
		printf("VIOLATION property=%s replay=%s\n", p.profile.c_str(), path.c_str());
		return 1;
	}

	int hunt(const Options& opt)
	{
		const uint64_t start = now_ms();
		g_maxRuns = opt.runs;
		g_hashes = shared_map<uint64_t>((g_maxRuns + 1) * 8);
		g_scheds = shared_map<uint64_t>((g_maxRuns + 1) * 8);
		g_owner = shared_map<uint32_t>((g_maxRuns + 1) * 4);
		g_sh->next = 0;
		g_sh->limit = opt.runs;
		g_sh->bad = kNone;
		g_sh->warmBad = kWarm;
		for (auto& s : g_sh->w)
			s.current = kNone;
		const int jobs = std::min(opt.jobs, kMaxWorkers);
		std::vector<pid_t> pids(static_cast<std::size_t>(jobs), -1);
		const auto spawn = [&](int i) {
			fflush(nullptr);
			const pid_t pid = fork();
			if (pid == 0)
				worker(i);
			if (pid < 0)
			{
				perror("fork");
				exit(3);
			}
			pids[static_cast<std::size_t>(i)] = pid;
		};
		for (int i = 0; i < jobs; ++i)
			spawn(i);
		std::string broken;
		uint64_t hangIdx = kNone;
		int alive = jobs;
		while (alive > 0)
		{
			int status;
			const pid_t pid = waitpid(-1, &status, WNOHANG);
			if (pid > 0)
			{
				const auto it = std::find(pids.begin(), pids.end(), pid);
				if (it == pids.end())
					continue;
				const int i = static_cast<int>(it - pids.begin());
				*it = -1;
				--alive;
				const int code = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
				if ((code == 97 && g_sh->bad != kNone) || code == 96)
				{
				}
				else if (code != 0)
				{
					const uint64_t idx = g_sh->w[i].current;
					broken = "worker " + std::to_string(i) + " ended with status " + std::to_string(status) + " at index " + std::to_string(static_cast<long long>(idx));
					if (idx != kNone)
					{
						uint64_t old = g_sh->bad;
						while (idx < old && !g_sh->bad.compare_exchange_weak(old, idx))
							;
					}
					else
						g_sh->limit = 0;
				}
				continue;
			}
			const uint64_t t = now_ms();
			if (t - start > static_cast<uint64_t>(opt.timeLimit) * 1000 && g_sh->limit > g_sh->next)
				g_sh->limit = g_sh->next.load();
			for (int i = 0; i < jobs; ++i)
			{
				const uint64_t cur = g_sh->w[i].current;
				if (pids[static_cast<std::size_t>(i)] > 0 && cur != kNone && g_sh->w[i].since + 90000 < t && cur == g_sh->w[i].current)
				{
					kill(pids[static_cast<std::size_t>(i)], SIGKILL);
					hangIdx = std::min(hangIdx, cur);
				}
			}
			usleep(2000);
		}
		const double searchS = static_cast<double>(now_ms() - start) / 1000.0;
		const uint64_t bad = g_sh->bad;
		int result = 0;
		std::string violationText;
		std::string replayPath;
		if (bad == kNone && g_sh->warmBad >= kWarm && !broken.empty())
		{
			fprintf(stderr, "ERROR: %s\n", broken.c_str());
			return 3;
		}
		const int warmBad = g_sh->warmBad;
		if (bad != kNone || warmBad < kWarm)
		{
			Program p;
			if (warmBad < kWarm)
			{
				warm_program(warmBad, p);
				p.warm = warmBad;
			}
			else
				generate(g_profile, seed_of(bad), p);
			const auto failed = [](const Outcome& o) { return o.state == 2 || o.state == 4 || o.state == 5; };
			Outcome a = run_child(p, 120);
			if (!failed(a) && bad != kNone && warmBad >= kWarm)
			{
				// the failure depends on earlier runs of the same process (i.e. on global state of the code under test)
				for (uint64_t i = 0; i < bad && i < g_maxRuns; ++i)
					if (g_owner[i] == g_owner[bad])
						p.before.push_back(seed_of(i));
				a = run_child(p, 300);
				const uint64_t deadline = now_ms() + 60000;
				for (std::size_t chunk = p.before.size(); failed(a) && chunk > 0;)
				{
					bool any = false;
					for (std::size_t i = 0; i < p.before.size() && now_ms() < deadline;)
					{
						Program q = p;
						const std::size_t n = std::min(chunk, q.before.size() - i);
						q.before.erase(q.before.begin() + static_cast<long>(i), q.before.begin() + static_cast<long>(i + n));
						const Outcome o = run_child(q, 120);
						if (failed(o))
						{
							p = q;
							a = o;
							any = true;
						}
						else
							i += n;
					}
					if (chunk == 1 && !any)
						break;
					if (!any)
						chunk = chunk / 2;
					chunk = std::min(chunk, p.before.size());
				}
			}
			const Outcome b = run_child(p, 120);
			printf("seed %llu: %s: %s\n", static_cast<unsigned long long>(seed_of(bad)), a.kind.c_str(), a.msg.c_str());
			if (!failed(a) || a.state != b.state || a.kind != b.kind || a.msg != b.msg || a.schedHash != b.schedHash)
			{
				fprintf(stderr, "ERROR: the failure of seed %llu does not repeat (%d/%d, %s/%s, %s/%s) %s\n", static_cast<unsigned long long>(seed_of(bad)), a.state, b.state, a.kind.c_str(), b.kind.c_str(), a.msg.c_str(), b.msg.c_str(), broken.c_str());
				return 3;
			}
			Program best = p;
			Outcome out = a;
			int trials = 0;
			if (a.state == 2)
			{
				Minimiser m;
				m.best = p;
				m.best.entries = a.sched;
				m.best.replay = true;
				m.out = a;
				m.deadline = now_ms() + (opt.tier == "quick" ? 30000 : 90000);
				const Outcome c = run_child(m.best, 60);	// the recorded schedule reproduces the failure?
				if (c.state == 2 && c.kind == a.kind)
				{
					m.out = c;
					m.run();
					best = m.best;
					out = m.out;
				}
				trials = m.trials;
			}
			mkdir(opt.replayDir.c_str(), 0777);
			replayPath = opt.replayDir + "/" + g_profile + "-" + std::to_string(seed_of(bad)) + ".txt";
			const auto write = [&](const Program& prog, const Outcome& o) {
				std::ofstream f{replayPath};
				f << "# violation " << o.kind << ": " << one_line(o.msg) << "\n";
				f << symbolize(o.msg);
				f << "# found with seed " << seed_of(bad) << " of profile " << g_profile << " (base seed " << g_base << ", run " << bad << "), minimised with " << trials << " trials\n";
				f << "# replay with: bash /verif/run.sh --replay <this file>\n";
				f << to_text(prog);
			};
			write(best, out);
			int rc = system_exit("'" + self_exe() + "' --replay '" + replayPath + "' > /dev/null 2>&1");
			if (rc != 1)
			{
				// without minimisation
				best = p;
				out = a;
				write(best, out);
				rc = system_exit("'" + self_exe() + "' --replay '" + replayPath + "' > /dev/null 2>&1");
			}
			if (rc != 1)
			{
				fprintf(stderr, "ERROR: the replay file %s does not reproduce the failure in a fresh process (%d)\n", replayPath.c_str(), rc);
				return 3;
			}
			violationText = out.kind + ": " + out.msg;
			printf("%s", symbolize(out.msg).c_str());
			printf("minimised: %s: %s\n", out.kind.c_str(), out.msg.c_str());
			printf("VIOLATION property=%s replay=%s\n", g_profile.c_str(), replayPath.c_str());
			result = 1;
		}

		// ---- evidence
		Totals t{};
		for (int i = 0; i < jobs; ++i)
		{
			const Totals& x = g_sh->w[i].t;
			const auto* a = reinterpret_cast<const uint64_t*>(&x);
			auto* d = reinterpret_cast<uint64_t*>(&t);
			for (std::size_t k = 0; k < sizeof(Totals) / 8; ++k)
				d[k] += a[k];
		}
		std::vector<uint64_t> h, sc;
		std::vector<uint64_t> sampleIdx;
		for (uint64_t i = 0; i < g_maxRuns; ++i)
		{
			if (g_hashes[i])
			{
				h.push_back(g_hashes[i]);
				if (sampleIdx.size() < 2)
					sampleIdx.push_back(i);
			}
			if (g_scheds[i])
				sc.push_back(g_scheds[i]);
		}
		const uint64_t nonTrivialRuns = h.size();
		std::sort(h.begin(), h.end());
		h.erase(std::unique(h.begin(), h.end()), h.end());
		std::sort(sc.begin(), sc.end());
		sc.erase(std::unique(sc.begin(), sc.end()), sc.end());
		const double wall = static_cast<double>(now_ms() - start) / 1000.0;
		printf("%s: %llu runs in %.1f s (%.0f runs/s), %llu non-trivial (%zu distinct), %zu distinct schedules, %llu calls accepted, %llu rejected, %llu fail-stops, %llu undecided, %llu leaked, %llu respawns\n",
			g_profile.c_str(), static_cast<unsigned long long>(t.runs), searchS, static_cast<double>(t.runs) / std::max(0.001, searchS), static_cast<unsigned long long>(nonTrivialRuns), h.size(), sc.size(),
			static_cast<unsigned long long>(t.accepted), static_cast<unsigned long long>(t.rejected), static_cast<unsigned long long>(t.failstops), static_cast<unsigned long long>(t.undecided), static_cast<unsigned long long>(t.leaked), static_cast<unsigned long long>(t.respawns));
		if (!opt.evidence.empty())
		{
			std::ostringstream j;
			const auto num = [&](const char* k, uint64_t v, bool comma = true) { j << "    " << quoted(k) << ": " << v << (comma ? "," : "") << "\n"; };
			j << "{\n  \"property\": " << quoted(g_profile) << ",\n  \"tier\": " << quoted(opt.tier) << ",\n  \"seed\": " << g_base << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n";
			num("evaluations", t.runs);
			num("distinct_nontrivial", h.size());
			j << "    \"rule\": " << quoted(std::string{"one evaluation is one simulated run: a program (operations of 1-4 virtual threads, nested user actions, faults) and a schedule, both generated from one seed; a run is non-trivial, if "} + rule(g_profile).text + "; distinct: different hash over all recorded operations, results, reports, side effects and their logical times") << ",\n";
			j << "    \"samples\": [";
			bool first = true;
			for (const uint64_t i : sampleIdx)
			{
				Program p;
				generate(g_profile, seed_of(i), p);
				j << (first ? "" : ",") << "\n      " << quoted(to_text(p).substr(0, 3500));
				first = false;
			}
			j << "\n    ],\n";
			num("nontrivial_runs", nonTrivialRuns);
			num("distinct_schedules", sc.size());
			num("first_seed", seed_of(0));
			num("runs_per_hour", static_cast<uint64_t>(static_cast<double>(t.runs) / std::max(0.001, searchS) * 3600.0));
			num("seeds_per_hour", static_cast<uint64_t>(static_cast<double>(t.runs) / std::max(0.001, searchS) * 3600.0));
			const uint64_t ev = t.events[0] + t.events[1] + t.events[2] + t.events[3];
			num("simulated_scheduling_points", ev);
			j << "    \"simulated_time\": " << quoted("the library has no clock or timer; simulated time is the number of scheduling points above (logical time); clocks, sleeps and timed waits would run on a virtual clock") << ",\n";
			j << "    \"scheduling_points\": {\"operation\": " << t.events[0] << ", \"user_action\": " << t.events[1] << ", \"lock_or_atomic\": " << t.events[2] << ", \"memory_access\": " << t.events[3] << "},\n";
			j << "    \"involuntary_switches\": {\"operation\": " << t.switches[0] << ", \"user_action\": " << t.switches[1] << ", \"lock_or_atomic\": " << t.switches[2] << ", \"memory_access\": " << t.switches[3] << ", \"blocked_on_lock\": " << t.blockedMutex << ", \"action_waited_for_other_task\": " << t.blockedEvent << "},\n";
			j << "    \"faults_injected\": {\"allocation_failed\": " << t.allocFaults << ", \"matcher_threw\": " << t.matcherThrows << ", \"action_threw\": " << t.actionThrows << ", \"printer_threw\": " << t.printerThrows << ", \"matcher_called_other_mock\": " << t.matcherCalls << ", \"unwinding_scope\": " << t.unwinds << ", \"rejected_call\": " << t.rejected << ", \"fail_stop_after_allocation_failure\": " << t.failstops << "},\n";
			num("operations", t.ops);
			num("accepted_calls", t.accepted);
			num("allocations", t.allocs);
			num("lock_operations", t.lockOps);
			num("memory_accesses_race_checked", t.racesChecked);
			num("undecided_histories", t.undecided);
			num("twin_runs_compared", t.twins);
			num("event_waits_released_by_harness", t.forced);
			j << "    \"runs_per_mode\": {\"single\": " << t.modes[0] << ", \"operation_level\": " << t.modes[1] << ", \"lock_level\": " << t.modes[2] << ", \"access_level\": " << t.modes[3] << ", \"pct\": " << t.modes[4] << "},\n";
			j << "    \"runs_per_reporter\": {\"recording\": " << t.reporters[0] << ", \"recording_throwing\": " << t.reporters[1] << ", \"BasicReporter\": " << t.reporters[2] << ", \"DefaultReporter\": " << t.reporters[3]
			  << ", \"Catch2ReporterT\": " << t.reporters[RK_CATCH2] << ", \"GTestReporterT\": " << t.reporters[RK_GTEST] << ", \"BoostTestReporterT\": " << t.reporters[RK_BOOST] << ", \"DoctestReporterT\": " << t.reporters[RK_DOCTEST] << "},\n";
			j << "    \"runs_per_task_count\": {\"1\": " << t.tasks[1] << ", \"2\": " << t.tasks[2] << ", \"3\": " << t.tasks[3] << ", \"4\": " << t.tasks[4] << "},\n";
			j << "    \"probes\": {";
			for (int i = 0; i < FT_COUNT; ++i)
				j << (i ? ", " : "") << quoted(kFeatureNames[i]) << ": " << t.features[i];
			j << "},\n";
			j << "    \"real_components\": " << quoted("all mimic++ headers of /repo's working tree, libstdc++ containers, std::format, shared_ptr, exceptions") << ",\n";
			j << "    \"stubbed_components\": " << quoted("pthread mutexes and condition variables, the scheduler, operator new/delete (simulated heap), user actions (matchers, side effects, finalizers, printers), the reporter (a recording one in most runs; BasicReporter, DefaultReporter and the adapters for Catch2, gtest, Boost.Test and Doctest are the real ones with recording sinks and stubs of the test frameworks)") << "\n";
			j << "  },\n  \"assumptions\": [" << quoted("search, no enumeration: only the sampled programs and schedules are decided") << ", " << quoted("sequentially consistent interleavings; weak memory effects are only covered by the happens-before race check") << ", " << quoted("uninstrumented parts of libstdc++ (std::format internals, iostream) are atomic steps") << "],\n";
			j << "  \"wall_s\": " << wall << ",\n  \"violations\": " << (result == 1 ? 1 : 0) << "\n}\n";
			std::ofstream f{opt.evidence};
			f << j.str();
			if (!f)
			{
				fprintf(stderr, "ERROR: can't write %s\n", opt.evidence.c_str());
				return 3;
			}
		}
		if (g_verbose)
			for (int i = 0; i < FT_COUNT; ++i)
				printf("  %-36s %llu\n", kFeatureNames[i], static_cast<unsigned long long>(t.features[i]));
		return result;
	}

	// prints one hash per seed; used to prove determinism
	int hashes(uint64_t from, uint64_t to, int jobs, bool fresh)
	{
		const uint64_t n = to - from;
		auto* out = shared_map<uint64_t>((n + 1) * 16);
		std::vector<pid_t> pids;
		for (int j = 0; j < jobs; ++j)
		{
			fflush(nullptr);
			const pid_t pid = fork();
			if (pid == 0)
			{
				if (!fresh)
				{
					prepare(kWarm);
					rt::worker_init();
				}
				g_worker = -1;
				for (uint64_t i = static_cast<uint64_t>(j); i < n; i += static_cast<uint64_t>(jobs))
				{
					Program p;
					generate(g_profile, seed_of(from + i), p);
					bool faults = false;
					for (const Block& b : p.blocks)
						for (const Op& o : b)
							faults |= o.fault > 0;
					if (faults && !fresh)	// may stop the process
					{
						out[i * 2] = out[i * 2 + 1] = 1;
						continue;
					}
					if (fresh && faults)
					{
						out[i * 2] = out[i * 2 + 1] = 1;
						continue;
					}
					if (fresh)
					{
						g_sh = shared_map<Shared>(sizeof(Shared));
						const Outcome o = run_child(p, 100);
						out[i * 2] = o.schedHash;
						out[i * 2 + 1] = o.histHash;
						munmap(g_sh, sizeof(Shared));
					}
					else
					{
						World w;
						run_here(p, w);
						out[i * 2] = w.schedHash;
						out[i * 2 + 1] = w.histHash;
					}
				}
				_exit(0);
			}
			pids.push_back(pid);
		}
		for (const pid_t p : pids)
			waitpid(p, nullptr, 0);
		for (uint64_t i = 0; i < n; ++i)
			printf("%llu %016llx %016llx\n", static_cast<unsigned long long>(seed_of(from + i)), static_cast<unsigned long long>(out[i * 2]), static_cast<unsigned long long>(out[i * 2 + 1]));
		return 0;
	}
}

int main(int argc, char** argv)
{
	setenv("LC_ALL", "C", 1);
	if (!getenv("MIMIC_SIM_NOASLR"))
	{
		const int pers = personality(0xffffffff);
		setenv("MIMIC_SIM_NOASLR", "1", 1);
		if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1)
			execv(self_exe().c_str(), argv);
	}
	Options opt;
	std::string mode = "hunt", arg;
	uint64_t from = 0, to = 0;
	bool fresh = false;
	for (int i = 1; i < argc; ++i)
	{
		const std::string a = argv[i];
		const auto next = [&]() -> std::string {
			if (++i >= argc)
			{
				fprintf(stderr, "missing argument of %s\n", a.c_str());
				exit(3);
			}
			return argv[i];
		};
		if (a == "--profile")
			g_profile = next();
		else if (a == "--base")
			g_base = std::strtoull(next().c_str(), nullptr, 10);
		else if (a == "--runs")
			opt.runs = std::strtoull(next().c_str(), nullptr, 10);
		else if (a == "--jobs")
			opt.jobs = std::atoi(next().c_str());
		else if (a == "--time-limit")
			opt.timeLimit = std::atoi(next().c_str());
		else if (a == "--tier")
			opt.tier = next();
		else if (a == "--evidence")
			opt.evidence = next();
		else if (a == "--replays")
			opt.replayDir = next();
		else if (a == "--replay")
			mode = "replay", arg = next();
		else if (a == "--one")
			mode = "one", arg = next();
		else if (a == "--print")
			mode = "print", arg = next();
		else if (a == "--hashes")
		{
			mode = "hashes";
			from = std::strtoull(next().c_str(), nullptr, 10);
			to = std::strtoull(next().c_str(), nullptr, 10);
		}
		else if (a == "--fresh")
			fresh = true;
		else if (a == "-v")
			g_verbose = true;
		else
		{
			fprintf(stderr, "unknown argument %s\n", a.c_str());
			return 3;
		}
	}
	g_sh = shared_map<Shared>(sizeof(Shared));
	rt::init(&on_violation);
	if (mode == "replay")
		return replay(arg);
	const auto names = profile_names();
	if (std::find(names.begin(), names.end(), g_profile) == names.end())
	{
		fprintf(stderr, "unknown profile %s\n", g_profile.c_str());
		return 3;
	}
	if (mode == "hashes")
		return hashes(from, to, opt.jobs, fresh);
	if (mode == "one" || mode == "print")
	{
		Program p;
		generate(g_profile, std::strtoull(arg.c_str(), nullptr, 10), p);
		printf("%s", to_text(p).c_str());
		fflush(stdout);
		if (mode == "print")
			return 0;
		const Outcome o = run_child(p, 120);
		printf("state %d %s: %s\nschedule %016llx history %016llx switches %zu\n%s", o.state, o.kind.c_str(), o.msg.c_str(), static_cast<unsigned long long>(o.schedHash), static_cast<unsigned long long>(o.histHash), o.sched.size(), symbolize(o.msg).c_str());
		return o.state == 1 || o.state == 3 ? 0 : 1;
	}
	return hunt(opt);
}
