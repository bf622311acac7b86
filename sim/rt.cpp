// NOTE: this file must be compiled WITHOUT -fsanitize=thread and must not instantiate std:: templates,
// which are shared with instrumented code.
#include "rt.hpp"

#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __data_start;
extern "C" char _end;

namespace rt
{
	thread_local bool tls_in_sut = false;
	static thread_local int tls_task = -1;
	static thread_local int tls_no_switch = 0;

	static ViolationFn g_onViolation;

	// ------------------------------------------------------------------ prng
	struct Rng
	{
		uint64_t s;
		uint64_t next()
		{
			uint64_t z = (s += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		uint32_t below(uint32_t n) { return static_cast<uint32_t>(next() % n); }
	};

	// ------------------------------------------------------------------ tasks
	enum State { Idle, Runnable, BlockedMutex, BlockedEvent, BlockedCond, BlockedGuard, Done };

	using Vc = uint32_t[kMaxTasks];

	struct Task
	{
		pthread_t thread;
		int go;		// futex
		State state;
		const void* waitOn;
		int waitEvent;
		uint32_t ev;
		Vc vc;
		int prio;
		int locks;
		uint32_t sinceSwitch;
	};

	static Task g_tasks[kMaxTasks];
	static int g_nTasks;
	static int g_phaseDone;	// futex
	static BodyFn g_body;
	static void* g_ctx;
	static bool g_active;	// a phase is running
	static bool g_parallel;	// ... with more than one task
	static bool g_detect;	// races are checked
	static SchedCfg g_cfg;
	static Rng g_rng;
	static RunStats g_stats;
	static uint64_t g_clock;
	static uint64_t g_virtualNs;		// what the code under test sees as the time
	static uint64_t g_clockReads;
	static int64_t g_clockJump;
	static SchedEntry g_sched[kMaxSched];
	static int g_nSched;
	static uint64_t g_schedHash;
	static int g_phase;
	static bool g_event[kMaxEvents];
	static uint64_t g_totalEvents;
	static uint32_t g_pctAt[16];
	static int g_pctNext;
	static uint32_t g_runId;

	// replay cursors
	static uint16_t g_replayIdx[kMaxTasks][kMaxSched];
	static int g_replayCount[kMaxTasks];
	static int g_replayPos[kMaxTasks];

	// (`syscall` itself is a seam, see below)
	using SyscallFn = long (*)(long, ...);
	static SyscallFn g_realSyscall;
	static SyscallFn real_syscall()
	{
		if (!g_realSyscall)
			g_realSyscall = reinterpret_cast<SyscallFn>(dlsym(RTLD_NEXT, "syscall"));
		return g_realSyscall;
	}
	static void futex_wait(int* addr, int val) { real_syscall()(SYS_futex, addr, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0); }
	static void futex_wake(int* addr) { real_syscall()(SYS_futex, addr, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

	static void baton_wait(int* addr)
	{
		while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == 0)
			futex_wait(addr, 0);
		__atomic_store_n(addr, 0, __ATOMIC_RELAXED);
	}
	static void baton_give(int* addr)
	{
		__atomic_store_n(addr, 1, __ATOMIC_RELEASE);
		futex_wake(addr);
	}

	void violation(const char* kind, const char* fmt, ...)
	{
		tls_in_sut = false;
		g_active = false;
		static char buf[2048];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		g_onViolation(kind, buf);
		_exit(97);
	}

	// ------------------------------------------------------------------ sync objects (keyed by address)
	struct SyncObj
	{
		const void* key;
		uint32_t runId;
		int owner;		// exclusive owner or -1
		int depth;
		int readers;
		uint32_t readerMask;
		bool isMutex;
		Vc vc;
	};
	constexpr int kSyncSize = 1 << 16;
	static SyncObj g_sync[kSyncSize];

	static SyncObj& sync_obj(const void* key)
	{
		uint64_t h = reinterpret_cast<uint64_t>(key) * 0x9e3779b97f4a7c15ull >> 48;
		for (int i = 0; i < kSyncSize; ++i)
		{
			SyncObj& o = g_sync[(h + i) & (kSyncSize - 1)];
			if (o.runId != g_runId)
			{
				memset(&o, 0, sizeof o);
				o.key = key;
				o.runId = g_runId;
				o.owner = -1;
				return o;
			}
			if (o.key == key)
				return o;
		}
		violation("harness", "sync table exhausted");
	}
	static uint64_t sync_home(const void* key) { return reinterpret_cast<uint64_t>(key) * 0x9e3779b97f4a7c15ull >> 48 & (kSyncSize - 1); }
	static void sync_remove(uint64_t i)		// closes the gap, too
	{
		uint64_t hole = i;
		for (uint64_t j = (i + 1) & (kSyncSize - 1); j != i; j = (j + 1) & (kSyncSize - 1))
		{
			if (g_sync[j].runId != g_runId)
				break;
			const uint64_t home = sync_home(g_sync[j].key);
			if (((j - home) & (kSyncSize - 1)) >= ((j - hole) & (kSyncSize - 1)))
			{
				g_sync[hole] = g_sync[j];
				hole = j;
			}
		}
		g_sync[hole].runId = g_runId - 1;
	}

	static void vc_join(Vc& dst, const Vc& src)
	{
		for (int i = 0; i < kMaxTasks; ++i)
			if (dst[i] < src[i])
				dst[i] = src[i];
	}
	static void acquire(SyncObj& o) { vc_join(g_tasks[tls_task].vc, o.vc); }
	static void release(SyncObj& o)
	{
		Task& t = g_tasks[tls_task];
		vc_join(o.vc, t.vc);
		++t.vc[tls_task];
	}

	// ------------------------------------------------------------------ scheduler
	static void record(int task, uint32_t at, int to)
	{
		if (g_nSched < kMaxSched)
			g_sched[g_nSched++] = {task + 100 * g_phase, at, to};
		g_schedHash = (g_schedHash ^ (static_cast<uint64_t>(task) * 1315423911u + at * 2654435761u + static_cast<uint64_t>(to) * 97u + static_cast<uint64_t>(g_phase))) * 0x100000001b3ull;
	}

	static void switch_to(int next)
	{
		const int me = tls_task;
		if (next == me)
			return;
		g_tasks[next].sinceSwitch = 0;
		baton_give(&g_tasks[next].go);
		baton_wait(&g_tasks[me].go);
	}

	static int replay_lookup(int t, uint32_t at)
	{
		int& pos = g_replayPos[t];
		while (pos < g_replayCount[t])
		{
			const SchedEntry& e = g_cfg.entries[g_replayIdx[t][pos]];
			if (e.at < at)
				++pos;
			else
				return e.at == at ? e.to : -1;
		}
		return -1;
	}

	static int runnable_others(int me, int* out)
	{
		int n = 0;
		for (int i = 0; i < g_nTasks; ++i)
			if (i != me && g_tasks[i].state == Runnable)
				out[n++] = i;
		return n;
	}

	static int highest_prio(const int* c, int n)
	{
		int best = c[0];
		for (int i = 1; i < n; ++i)
			if (g_tasks[c[i]].prio > g_tasks[best].prio)
				best = c[i];
		return best;
	}

	static void point_impl(PointKind kind, bool force)
	{
		const int me = tls_task;
		if (me < 0 || !g_active)
			return;
		Task& t = g_tasks[me];
		++t.ev;
		++g_stats.events[kind];
		if (++g_totalEvents > g_cfg.maxEvents)
			violation("livelock", "the run did not finish within %llu scheduling points", static_cast<unsigned long long>(g_cfg.maxEvents));
		if (!g_parallel || tls_no_switch)
			return;
		++t.sinceSwitch;
		int cand[kMaxTasks];
		int target = -1;
		if (g_cfg.replay)
		{
			target = replay_lookup(me, t.ev);
			if (target >= 0 && (target >= g_nTasks || target == me || g_tasks[target].state != Runnable))
				target = -1;
			if (target < 0 && (force || t.sinceSwitch > 20000))
			{
				const int n = runnable_others(me, cand);
				if (n)
					target = cand[0];
			}
		}
		else if (g_cfg.pctPoints)
		{
			bool change = force || t.sinceSwitch > 20000;
			while (g_pctNext < g_cfg.pctPoints && g_totalEvents >= g_pctAt[g_pctNext])
			{
				change = true;
				++g_pctNext;
			}
			if (change)
			{
				static int lowest;
				int lo = INT_MAX;
				for (int i = 0; i < g_nTasks; ++i)
					if (g_tasks[i].prio < lo)
						lo = g_tasks[i].prio;
				lowest = lo - 1;
				t.prio = lowest;
				const int n = runnable_others(me, cand);
				if (n)
					target = highest_prio(cand, n);
			}
		}
		else
		{
			const uint32_t p = g_cfg.p[kind];
			if (force || t.sinceSwitch > 20000 || (p && static_cast<uint32_t>(g_rng.next() >> 32) < p))
			{
				const int n = runnable_others(me, cand);
				if (n)
					target = cand[g_rng.below(static_cast<uint32_t>(n))];
			}
		}
		if (target >= 0)
		{
			record(me, t.ev, target);
			++g_stats.switches[kind];
			t.sinceSwitch = 0;
			switch_to(target);
		}
	}

	void point(PointKind kind) { point_impl(kind, false); }

	static const char* state_name(State s)
	{
		switch (s)
		{
		case Runnable: return "runnable";
		case BlockedMutex: return "waiting for a lock";
		case BlockedEvent: return "waiting inside a user action";
		case BlockedCond: return "waiting for a condition";
		case BlockedGuard: return "waiting for a static initialization";
		case Done: return "done";
		default: return "idle";
		}
	}

	// picks the next task, when the current one can't continue
	static int pick_next(int me)
	{
		int cand[kMaxTasks];
		int n = runnable_others(me, cand);
		if (!n)
		{
			bool any = false, internal = false;
			for (int i = 0; i < g_nTasks; ++i)
			{
				any |= g_tasks[i].state == BlockedEvent;
				internal |= g_tasks[i].state == BlockedMutex || g_tasks[i].state == BlockedCond || g_tasks[i].state == BlockedGuard;
			}
			if (internal)
			{
				char buf[512];
				int off = 0;
				for (int i = 0; i < g_nTasks; ++i)
				{
					off += snprintf(buf + off, sizeof buf - off, "%stask %d %s", i ? "; " : "", i, state_name(g_tasks[i].state));
					if (g_tasks[i].state == BlockedMutex)
						off += snprintf(buf + off, sizeof buf - off, " owned by task %d", sync_obj(g_tasks[i].waitOn).owner);
				}
				violation("deadlock", "no task can proceed: %s", buf);
			}
			if (!any)
				return -1;
			// user actions wait for something nobody signals anymore: release them (harness level, not a library fault)
			++g_stats.forcedEvents;
			for (int i = 0; i < g_nTasks; ++i)
				if (g_tasks[i].state == BlockedEvent)
				{
					g_event[g_tasks[i].waitEvent] = true;
					g_tasks[i].state = Runnable;
				}
			n = runnable_others(-1, cand);
		}
		int target = -1;
		const uint32_t at = g_tasks[me].ev;
		if (g_cfg.replay)
		{
			target = replay_lookup(me, at);
			if (target < 0 || target >= g_nTasks || g_tasks[target].state != Runnable)
				target = cand[0];
		}
		else if (g_cfg.pctPoints)
			target = highest_prio(cand, n);
		else
			target = cand[n > 1 ? g_rng.below(static_cast<uint32_t>(n)) : 0];
		if (n > 1)
			record(me, at, target);
		return target;
	}

	static void block(State s, const void* on, int ev)
	{
		const int me = tls_task;
		Task& t = g_tasks[me];
		++t.ev;
		++g_totalEvents;
		t.state = s;
		t.waitOn = on;
		t.waitEvent = ev;
		const int next = pick_next(me);
		t.sinceSwitch = 0;
		if (next == me)	// released by pick_next
			return;
		switch_to(next);
	}

	static void wake(State s, const void* on)
	{
		for (int i = 0; i < g_nTasks; ++i)
			if (g_tasks[i].state == s && g_tasks[i].waitOn == on)
				g_tasks[i].state = Runnable;
	}

	void wait_event(int id)
	{
		if (tls_task < 0 || !g_active || !g_parallel)
			return;
		point_impl(P_CB, false);
		while (!g_event[id])
		{
			++g_stats.blockedOnEvent;
			block(BlockedEvent, nullptr, id);
		}
	}
	void signal_event(int id)
	{
		g_event[id] = true;
		for (int i = 0; i < g_nTasks; ++i)
			if (g_tasks[i].state == BlockedEvent && g_tasks[i].waitEvent == id)
				g_tasks[i].state = Runnable;
	}

	static bool simulated() { return tls_in_sut && tls_task >= 0 && g_active; }

	void sync_acquire(const void* key)
	{
		if (tls_task >= 0 && g_active)
			acquire(sync_obj(key));
	}
	void sync_release(const void* key)
	{
		if (tls_task >= 0 && g_active)
			release(sync_obj(key));
	}
	void skip_schedule_points(int delta) { tls_no_switch += delta; }
	int self() { return tls_task; }
	uint64_t total_events() { return g_totalEvents; }
	uint64_t now() { return ++g_clock; }
	uint32_t local_events(int task) { return g_tasks[task].ev; }
	const RunStats& stats() { return g_stats; }
	const SchedEntry* schedule(int& n)
	{
		n = g_nSched;
		return g_sched;
	}
	uint64_t schedule_hash() { return g_schedHash; }
	bool holds_lock() { return tls_task >= 0 && g_tasks[tls_task].locks > 0; }

	// ------------------------------------------------------------------ simulated heap
	constexpr uint64_t kArenaBase = 0x200000000000ull;
	constexpr uint64_t kArenaSize = 256ull << 20;
	constexpr uint64_t kBlockMagic = 0x5157ac0ffee51edull;
	struct Block
	{
		uint64_t magic;
		uint64_t size;
	};
	static char* g_arena;
	static uint8_t* g_gran;		// per 16 bytes: 0 never, 1 live, 2 freed
	static uint64_t g_cur;		// offset
	static uint64_t g_start;	// offset of the current run
	static uint64_t g_live;
	static thread_local int tls_failAt;
	static thread_local bool tls_failFired;

	struct Cell
	{
		uint32_t runId;
		uint32_t wclk;
		uint8_t wtid;
		uint8_t wmask;
		uint8_t rmask[kMaxTasks];
		uint32_t rclk[kMaxTasks];
	};
	static Cell* g_cells;		// per 8 bytes of the arena
	static Cell* g_dataCells;	// per 8 bytes of .data/.bss
	static uint64_t g_dataBase, g_dataSize;

	static bool in_arena(const void* p)
	{
		return reinterpret_cast<uint64_t>(p) - kArenaBase < kArenaSize;
	}

	static void* arena_alloc(size_t n, size_t align)
	{
		if (align < 16)
			align = 16;
		uint64_t pos = g_cur + sizeof(Block) + 16;
		pos = (pos + align - 1) & ~(align - 1);
		const uint64_t len = (n + 15) & ~15ull;
		if (pos + len + 64 > kArenaSize)
			violation("livelock", "simulated heap exhausted (%llu bytes)", static_cast<unsigned long long>(pos));
		Block* b = reinterpret_cast<Block*>(g_arena + pos - sizeof(Block));
		b->magic = kBlockMagic;
		b->size = n;
		memset(g_gran + pos / 16, 1, (len ? len : 16) / 16);
		g_cur = pos + (len ? len : 16);
		memset(g_arena + pos, 0xa5, n);
		++g_live;
		return g_arena + pos;
	}

	void arm_alloc_fault(int n)
	{
		tls_failAt = n > 0 ? n : 0;
	}
	bool alloc_fault_fired() { return tls_failFired; }
	bool take_alloc_fault()
	{
		const bool v = tls_failFired;
		tls_failFired = false;
		return v;
	}

	// ------------------------------------------------------------------ race detector
	static void report_race(const void* addr, const void* pc, bool write, int other, bool otherWrite)
	{
		violation(
			"race",
			"unsynchronized %s by task %d and %s by task %d of the same memory (%s %llu, pc %p)",
			write ? "write" : "read",
			tls_task,
			otherWrite ? "write" : "read",
			other,
			in_arena(addr) ? "heap offset" : "global data at",
			static_cast<unsigned long long>(reinterpret_cast<uint64_t>(addr) - (in_arena(addr) ? kArenaBase : 0)),
			pc);
	}

	static void cell_access(Cell& c, uint8_t mask, bool write, const void* addr, const void* pc)
	{
		const int me = tls_task;
		Task& t = g_tasks[me];
		if (c.runId != g_runId)
		{
			memset(&c, 0, sizeof c);
			c.runId = g_runId;
			c.wtid = 0xff;
		}
		if (c.wtid != 0xff && c.wtid != me && (c.wmask & mask) && c.wclk > t.vc[c.wtid])
			report_race(addr, pc, write, c.wtid, true);
		if (write)
		{
			for (int r = 0; r < g_nTasks; ++r)
				if (r != me && (c.rmask[r] & mask) && c.rclk[r] > t.vc[r])
					report_race(addr, pc, true, r, false);
			if (c.wtid == me && c.wclk == t.vc[me])
				c.wmask |= mask;
			else
			{
				c.wtid = static_cast<uint8_t>(me);
				c.wclk = t.vc[me];
				c.wmask = mask;
			}
		}
		else
		{
			if (c.rclk[me] == t.vc[me])
				c.rmask[me] |= mask;
			else
			{
				c.rclk[me] = t.vc[me];
				c.rmask[me] = mask;
			}
		}
	}

	static void check_races(uint64_t off, size_t size, Cell* cells, bool write, const void* addr, const void* pc)
	{
		++g_stats.racesChecked;
		uint64_t cur = off;
		const uint64_t end = off + size;
		while (cur < end)
		{
			const uint64_t cell = cur / 8;
			const uint64_t lo = cur % 8;
			const uint64_t hi = (end - cell * 8) < 8 ? (end - cell * 8) : 8;
			const uint8_t mask = static_cast<uint8_t>((0xffu >> (8 - (hi - lo))) << lo);
			cell_access(cells[cell], mask, write, addr, pc);
			cur = cell * 8 + hi;
		}
	}

	static inline __attribute__((always_inline)) void access(const void* p, size_t size, bool write)
	{
		if (!tls_in_sut)
			return;
		const uint64_t off = reinterpret_cast<uint64_t>(p) - kArenaBase;
		if (off < kArenaSize)
		{
			if (tls_task < 0 || !g_active)
				return;
			point_impl(P_MEM, false);
			const uint64_t last = size ? off + size - 1 : off;
			for (uint64_t g = off / 16; g <= last / 16; ++g)
				if (g_gran[g] != 1)
					violation(
						g_gran[g] == 2 ? "use-after-free" : "heap-overflow",
						"task %d: %s of %zu bytes at offset %llu, which is %s (pc %p)",
						tls_task,
						write ? "write" : "read",
						size,
						static_cast<unsigned long long>(off),
						g_gran[g] == 2 ? "already freed" : "not allocated",
						__builtin_return_address(0));
			if (g_detect)
				check_races(off, size, g_cells, write, p, __builtin_return_address(0));
			return;
		}
		const uint64_t doff = reinterpret_cast<uint64_t>(p) - g_dataBase;
		if (doff < g_dataSize)
		{
			if (tls_task < 0 || !g_active)
				return;
			point_impl(P_MEM, false);
			if (g_detect)
				check_races(doff, size, g_dataCells, write, p, __builtin_return_address(0));
		}
	}

	static void* do_new(size_t n, size_t align)
	{
		if (simulated())
		{
			++g_stats.allocs;
			if (tls_failAt && --tls_failAt == 0)
			{
				tls_failFired = true;
				++g_stats.allocFaults;
				return nullptr;
			}
			return arena_alloc(n, align);
		}
		if (align <= 16)
			return malloc(n ? n : 1);
		void* p = nullptr;
		return posix_memalign(&p, align, n ? n : 1) == 0 ? p : nullptr;
	}

	static void do_delete(void* p)
	{
		if (!p)
			return;
		if (!in_arena(p))
		{
			free(p);
			return;
		}
		const uint64_t off = reinterpret_cast<uint64_t>(p) - kArenaBase;
		Block* b = reinterpret_cast<Block*>(g_arena + off - sizeof(Block));
		if (g_gran[off / 16] == 2)
			violation("double-free", "block at offset %llu is freed twice", static_cast<unsigned long long>(off));
		if (g_gran[off / 16] != 1 || b->magic != kBlockMagic)
			violation("bad-free", "free of an address which is not the start of a block (offset %llu)", static_cast<unsigned long long>(off));
		const uint64_t size = b->size;
		if (g_active && tls_task >= 0)
		{
			++g_stats.frees;
			if (g_detect)
			{
				check_races(off, size ? size : 1, g_cells, true, p, __builtin_return_address(0));
			}
			// a lock which is destroyed while somebody owns it
			for (uint64_t a = off; a + 4 <= off + size; a += 4)
			{
				const void* key = g_arena + a;
				uint64_t h = reinterpret_cast<uint64_t>(key) * 0x9e3779b97f4a7c15ull >> 48;
				for (int i = 0; i < kSyncSize; ++i)
				{
					SyncObj& o = g_sync[(h + i) & (kSyncSize - 1)];
					if (o.runId != g_runId)
						break;
					if (o.key == key)
					{
						if (o.isMutex && (o.owner >= 0 || o.readers > 0))
							violation("lock-destroyed", "a lock is destroyed while task %d holds it", o.owner);
						sync_remove((h + i) & (kSyncSize - 1));
						break;
					}
				}
			}
		}
		const uint64_t len = ((size + 15) & ~15ull) ? ((size + 15) & ~15ull) : 16;
		memset(g_gran + off / 16, 2, len / 16);
		memset(p, 0xdd, size);
		g_live -= off >= g_start;	// (blocks of earlier runs are not counted)
	}

	// ------------------------------------------------------------------ pool
	static void on_signal(int sig)
	{
		violation("crash", "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT, e.g. a failed assertion" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL");
	}

	static void alt_stack()
	{
		stack_t st{};
		st.ss_size = 128 << 10;
		st.ss_sp = malloc(st.ss_size);
		sigaltstack(&st, nullptr);
	}

	static bool g_poolEnd;
	static void* pool_main(void* arg)
	{
		tls_task = static_cast<int>(reinterpret_cast<intptr_t>(arg));
		alt_stack();
		Task& t = g_tasks[tls_task];
		for (;;)
		{
			baton_wait(&t.go);
			if (g_poolEnd)
				return nullptr;
			g_body(g_ctx, tls_task);
			tls_in_sut = false;
			t.state = Done;
			++t.ev;
			bool all = true;
			for (int i = 0; i < g_nTasks; ++i)
				all &= g_tasks[i].state == Done;
			if (all)
			{
				baton_give(&g_phaseDone);
				continue;
			}
			const int next = pick_next(tls_task);
			if (next < 0)
				violation("harness", "no runnable task left");
			baton_give(&g_tasks[next].go);
		}
		return nullptr;
	}

	static void on_terminate()
	{
		const char* what = "unknown";
		static char buf[256];
		if (std::exception_ptr e = std::current_exception())
		{
			tls_in_sut = false;
			try
			{
				std::rethrow_exception(e);
			}
			catch (const std::exception& ex)
			{
				snprintf(buf, sizeof buf, "%.200s", ex.what());
				what = buf;
			}
			catch (...)
			{
				what = "exception of unknown type";
			}
		}
		violation("terminate", "std::terminate was called (%s)", what);
	}

	void init(ViolationFn f)
	{
		g_onViolation = f;
		void* p = mmap(reinterpret_cast<void*>(kArenaBase), kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != reinterpret_cast<void*>(kArenaBase))
		{
			fprintf(stderr, "can't map the simulated heap\n");
			_exit(3);
		}
		g_arena = static_cast<char*>(p);
		auto map = [](size_t n) {
			void* q = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (q == MAP_FAILED)
			{
				fprintf(stderr, "can't map shadow memory\n");
				_exit(3);
			}
			return q;
		};
		g_gran = static_cast<uint8_t*>(map(kArenaSize / 16));
		g_cells = static_cast<Cell*>(map(kArenaSize / 8 * sizeof(Cell)));
		g_dataBase = reinterpret_cast<uint64_t>(&__data_start);
		g_dataSize = reinterpret_cast<uint64_t>(&_end) - g_dataBase;
		g_dataCells = static_cast<Cell*>(map((g_dataSize / 8 + 2) * sizeof(Cell)));
		g_runId = 0;
		std::set_terminate(on_terminate);
	}

	void worker_init()
	{
		alt_stack();
		struct sigaction sa{};
		sa.sa_handler = on_signal;
		sa.sa_flags = SA_ONSTACK | SA_NODEFER;
		static const int sigs[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL};
		for (const int s : sigs)
			sigaction(s, &sa, nullptr);
		for (int i = 0; i < kMaxTasks; ++i)
		{
			g_tasks[i].go = 0;
			g_tasks[i].state = Idle;
			pthread_attr_t attr;
			pthread_attr_init(&attr);
			pthread_attr_setstacksize(&attr, 1 << 20);
			if (pthread_create(&g_tasks[i].thread, &attr, pool_main, reinterpret_cast<void*>(static_cast<intptr_t>(i))) != 0)
			{
				fprintf(stderr, "can't create the task pool\n");
				_exit(3);
			}
			pthread_attr_destroy(&attr);
		}
	}

	void worker_exit()
	{
		g_poolEnd = true;
		for (int i = 0; i < kMaxTasks; ++i)
			baton_give(&g_tasks[i].go);
		for (int i = 0; i < kMaxTasks; ++i)
			pthread_join(g_tasks[i].thread, nullptr);
		g_poolEnd = false;
	}

	void begin_run(const SchedCfg& cfg)
	{
		g_cfg = cfg;
		g_rng.s = cfg.seed * 0xd1342543de82ef95ull + 0x2545f4914f6cdd1dull;
		memset(&g_stats, 0, sizeof g_stats);
		g_clock = 0;
		g_virtualNs = 1000000000ull * 100000;
		g_clockReads = 0;
		g_clockJump = 0;
		g_nSched = 0;
		g_schedHash = 0xcbf29ce484222325ull;
		g_phase = 0;
		memset(g_event, 0, sizeof g_event);
		g_totalEvents = 0;
		++g_runId;
		g_cur = g_start;
		g_live = 0;
		for (int i = 0; i < kMaxTasks; ++i)
		{
			memset(g_tasks[i].vc, 0, sizeof(Vc));
			g_tasks[i].vc[i] = 1;
			g_tasks[i].locks = 0;
		}
		g_pctNext = 0;
		if (cfg.pctPoints)
		{
			for (int i = 0; i < cfg.pctPoints && i < 16; ++i)
				g_pctAt[i] = 1 + g_rng.below(cfg.pctRange ? cfg.pctRange : 1000);
			for (int i = 0; i < cfg.pctPoints && i < 16; ++i)	// sort
				for (int j = i + 1; j < cfg.pctPoints && j < 16; ++j)
					if (g_pctAt[j] < g_pctAt[i])
					{
						const uint32_t x = g_pctAt[i];
						g_pctAt[i] = g_pctAt[j];
						g_pctAt[j] = x;
					}
		}
	}

	void run_phase(BodyFn fn, void* ctx, int nTasks)
	{
		++g_phase;
		g_nTasks = nTasks;
		g_body = fn;
		g_ctx = ctx;
		// everything which happened before is visible to all tasks
		Vc all;
		memset(all, 0, sizeof all);
		for (int i = 0; i < kMaxTasks; ++i)
			vc_join(all, g_tasks[i].vc);
		for (int i = 0; i < kMaxTasks; ++i)
		{
			memcpy(g_tasks[i].vc, all, sizeof all);
			g_tasks[i].vc[i] = all[i] + 1;
		}
		const uint64_t phaseBase = g_totalEvents;
		for (int i = 0; i < nTasks; ++i)
		{
			Task& t = g_tasks[i];
			t.state = Runnable;
			t.ev = 0;
			t.sinceSwitch = 0;
			t.prio = 0;
		}
		int first = 0;
		g_parallel = nTasks > 1;
		g_detect = g_parallel && g_cfg.raceDetect;
		for (int i = 0; i < kMaxTasks; ++i)
			g_replayCount[i] = g_replayPos[i] = 0;
		if (g_cfg.replay)
		{
			for (int i = 0; i < g_cfg.nEntries; ++i)
			{
				const SchedEntry& e = g_cfg.entries[i];
				if (e.task / 100 != g_phase)
					continue;
				const int t = e.task % 100;
				if (t < kMaxTasks)
					g_replayIdx[t][g_replayCount[t]++] = static_cast<uint16_t>(i);
				if (e.at == 0 && e.to < nTasks)
					first = e.to;
			}
		}
		else if (g_parallel)
		{
			if (g_cfg.pctPoints)
			{
				for (int i = 0; i < g_cfg.pctPoints && i < 16; ++i)
					g_pctAt[i] += static_cast<uint32_t>(phaseBase);
				for (int i = 0; i < nTasks; ++i)
					g_tasks[i].prio = static_cast<int>(g_rng.below(1 << 20)) + 1;
				int c[kMaxTasks];
				for (int i = 0; i < nTasks; ++i)
					c[i] = i;
				first = highest_prio(c, nTasks);
			}
			else
				first = static_cast<int>(g_rng.below(static_cast<uint32_t>(nTasks)));
			if (first != 0)
				record(0, 0, first);
		}
		g_phaseDone = 0;
		g_active = true;
		baton_give(&g_tasks[first].go);
		baton_wait(&g_phaseDone);
		g_active = false;
		g_parallel = false;
		g_detect = false;
	}

	bool heap_low() { return g_start > kArenaSize / 4; }

	bool end_run()
	{
		// recycle the heap of this run
		const bool clean = g_live == 0;
		if (clean)
		{
			memset(g_gran + g_start / 16, 0, (g_cur - g_start) / 16 + 1);
			g_cur = g_start;
		}
		else
			g_start = (g_cur + 63) & ~63ull;	// keep what leaked (it may still be referenced)
		return clean;
	}
}

using namespace rt;

// ---------------------------------------------------------------------- allocation functions
#define RT_NEW(expr) \
	void* p = (expr); \
	if (!p) throw std::bad_alloc{}; \
	return p;
void* operator new(size_t n) { RT_NEW(do_new(n, 16)) }
void* operator new[](size_t n) { RT_NEW(do_new(n, 16)) }
void* operator new(size_t n, std::align_val_t a) { RT_NEW(do_new(n, static_cast<size_t>(a))) }
void* operator new[](size_t n, std::align_val_t a) { RT_NEW(do_new(n, static_cast<size_t>(a))) }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { do_delete(p); }

// ---------------------------------------------------------------------- locks
static SyncObj& lock_obj(const void* key)
{
	SyncObj& o = sync_obj(key);
	o.isMutex = true;
	return o;
}
static void check_alive(const void* m)
{
	if (in_arena(m) && g_gran[(reinterpret_cast<uint64_t>(m) - kArenaBase) / 16] != 1)
		violation("use-after-free", "task %d uses a lock in freed memory", tls_task);
}
static int sim_lock(pthread_mutex_t* m, bool tryOnly)
{
	point_impl(P_SYNC, false);
	check_alive(m);
	++g_stats.lockOps;
	SyncObj* o = &lock_obj(m);
	if (o->owner == tls_task)
	{
		const int kind = m->__data.__kind & 3;
		if (kind == PTHREAD_MUTEX_RECURSIVE_NP)
		{
			++o->depth;
			return 0;
		}
		if (tryOnly)
			return EBUSY;
		if (kind == PTHREAD_MUTEX_ERRORCHECK_NP)
			return EDEADLK;
		violation("deadlock", "task %d locks a mutex which it already holds", tls_task);
	}
	while (o->owner >= 0)
	{
		if (tryOnly)
			return EBUSY;
		++g_stats.blockedOnMutex;
		block(BlockedMutex, m, -1);
		check_alive(m);
		o = &lock_obj(m);
	}
	o->owner = tls_task;
	o->depth = 1;
	++g_tasks[tls_task].locks;
	acquire(*o);
	return 0;
}
static int sim_unlock(pthread_mutex_t* m, const bool point = true)
{
	check_alive(m);
	SyncObj& o = lock_obj(m);
	if (o.owner != tls_task)
		violation("bad-unlock", "task %d unlocks a mutex which it doesn't hold (owner %d)", tls_task, o.owner);
	if (--o.depth > 0)
		return 0;
	release(o);
	o.owner = -1;
	--g_tasks[tls_task].locks;
	wake(BlockedMutex, m);
	if (point)
		point_impl(P_SYNC, false);
	return 0;
}

template <typename F>
static F real(const char* name)
{
	return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

static void elapse(uint64_t ns) { g_virtualNs += ns; }

extern "C"
{
	int pthread_mutex_lock(pthread_mutex_t* m)
	{
		if (simulated())
			return sim_lock(m, false);
		static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
		return f(m);
	}
	int pthread_mutex_trylock(pthread_mutex_t* m)
	{
		if (simulated())
			return sim_lock(m, true);
		static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
		return f(m);
	}
	int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
	{
		if (simulated())
		{
			const int r = sim_lock(m, true);
			if (r != EBUSY)
				return r;
			point_impl(P_SYNC, true);
			if (sim_lock(m, true) == 0)
				return 0;
			elapse(1000000);
			return ETIMEDOUT;
		}
		static auto f = real<int (*)(pthread_mutex_t*, const timespec*)>("pthread_mutex_timedlock");
		return f(m, ts);
	}
	int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
	{
		if (simulated())
			return pthread_mutex_timedlock(m, ts);
		static auto f = real<int (*)(pthread_mutex_t*, clockid_t, const timespec*)>("pthread_mutex_clocklock");
		return f(m, c, ts);
	}
	int pthread_mutex_unlock(pthread_mutex_t* m)
	{
		if (simulated())
			return sim_unlock(m);
		static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
		return f(m);
	}

	// --- reader/writer locks
	static int sim_rw(pthread_rwlock_t* m, bool write, bool tryOnly)
	{
		point_impl(P_SYNC, false);
		check_alive(m);
		++g_stats.lockOps;
		SyncObj* o = &lock_obj(m);
		if (o->owner == tls_task || (write && (o->readerMask & (1u << tls_task))))
		{
			if (tryOnly)
				return EBUSY;
			violation("deadlock", "task %d locks a reader-writer lock which it already holds", tls_task);
		}
		while (o->owner >= 0 || (write && o->readers > 0))
		{
			if (tryOnly)
				return EBUSY;
			++g_stats.blockedOnMutex;
			block(BlockedMutex, m, -1);
			check_alive(m);
			o = &lock_obj(m);
		}
		if (write)
			o->owner = tls_task;
		else
		{
			++o->readers;
			o->readerMask |= 1u << tls_task;
		}
		++g_tasks[tls_task].locks;
		acquire(*o);
		return 0;
	}
	int pthread_rwlock_rdlock(pthread_rwlock_t* m)
	{
		if (simulated())
			return sim_rw(m, false, false);
		static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
		return f(m);
	}
	int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
	{
		if (simulated())
			return sim_rw(m, false, true);
		static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
		return f(m);
	}
	int pthread_rwlock_wrlock(pthread_rwlock_t* m)
	{
		if (simulated())
			return sim_rw(m, true, false);
		static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
		return f(m);
	}
	int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
	{
		if (simulated())
			return sim_rw(m, true, true);
		static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
		return f(m);
	}
	int pthread_rwlock_unlock(pthread_rwlock_t* m)
	{
		if (simulated())
		{
			check_alive(m);
			SyncObj& o = lock_obj(m);
			if (o.owner == tls_task)
				o.owner = -1;
			else if (o.readers > 0 && (o.readerMask & (1u << tls_task)))
			{
				--o.readers;
				o.readerMask &= ~(1u << tls_task);
			}
			else
				violation("bad-unlock", "task %d unlocks a reader-writer lock which it doesn't hold", tls_task);
			release(o);
			--g_tasks[tls_task].locks;
			wake(BlockedMutex, m);
			point_impl(P_SYNC, false);
			return 0;
		}
		static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
		return f(m);
	}

	// --- condition variables
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
	{
		if (simulated())
		{
			sim_unlock(m, false);	// giving the mutex up and waiting is one step
			block(BlockedCond, c, -1);
			return sim_lock(m, false);
		}
		static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
		return f(c, m);
	}
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts)
	{
		if (simulated())
		{
			sim_unlock(m);
			point_impl(P_SYNC, true);
			elapse(1000000);
			const int r = sim_lock(m, false);
			return r ? r : ETIMEDOUT;
		}
		static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait");
		return f(c, m, clk, ts);
	}
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
	{
		if (simulated())
			return pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts);
		static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
		return f(c, m, ts);
	}
	int pthread_cond_broadcast(pthread_cond_t* c)
	{
		if (simulated())
		{
			wake(BlockedCond, c);
			point_impl(P_SYNC, false);
			return 0;
		}
		static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
		return f(c);
	}
	int pthread_cond_signal(pthread_cond_t* c)
	{
		if (simulated())
		{
			for (int i = 0; i < g_nTasks; ++i)
				if (g_tasks[i].state == BlockedCond && g_tasks[i].waitOn == c)
				{
					g_tasks[i].state = Runnable;
					break;
				}
			point_impl(P_SYNC, false);
			return 0;
		}
		static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
		return f(c);
	}

	// --- clocks (the library has none, but a change could introduce one): the time passes with each look at it, and every
	// now and then a lot of it (a stalled thread); the wall clock also jumps back and forth
	int clock_gettime(clockid_t c, timespec* ts)
	{
		if (simulated())
		{
			uint64_t h = (++g_clockReads + g_cfg.seed) * 0x9e3779b97f4a7c15ull;
			h ^= h >> 29;
			h *= 0xbf58476d1ce4e5b9ull;
			h ^= h >> 32;
			elapse(h % 8 ? 1000 : 1000 * (h / 8 % 10000000));
			if (h % 64 == 63)
				g_clockJump += static_cast<int64_t>(h / 64 % 7200000000000ull) - 3600000000000ll;
			const uint64_t t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? 1700000000000000000ull + g_virtualNs + static_cast<uint64_t>(g_clockJump) : g_virtualNs;
			ts->tv_sec = static_cast<time_t>(t / 1000000000u);
			ts->tv_nsec = static_cast<long>(t % 1000000000u);
			point_impl(P_SYNC, false);
			return 0;
		}
		static auto f = real<int (*)(clockid_t, timespec*)>("clock_gettime");
		return f(c, ts);
	}

	int sched_yield()
	{
		if (simulated())
		{
			point_impl(P_SYNC, true);
			return 0;
		}
		return static_cast<int>(syscall(SYS_sched_yield));
	}
	int nanosleep(const timespec* a, timespec* b)
	{
		if (simulated())
		{
			elapse(static_cast<uint64_t>(a->tv_sec) * 1000000000u + static_cast<uint64_t>(a->tv_nsec));
			point_impl(P_SYNC, true);
			return 0;
		}
		return static_cast<int>(syscall(SYS_nanosleep, a, b));
	}
	int clock_nanosleep(clockid_t c, int flags, const timespec* a, timespec* b)
	{
		if (simulated())
		{
			elapse(flags & TIMER_ABSTIME ? 1000000 : static_cast<uint64_t>(a->tv_sec) * 1000000000u + static_cast<uint64_t>(a->tv_nsec));
			point_impl(P_SYNC, true);
			return 0;
		}
		return static_cast<int>(syscall(SYS_clock_nanosleep, c, flags, a, b)) ? errno : 0;
	}

	// --- futexes (waiting on atomics, semaphores, latches, barriers)
	long syscall(long n, ...) noexcept
	{
		long a[6];
		va_list ap;
		va_start(ap, n);
		for (long& v : a)
			v = va_arg(ap, long);
		va_end(ap);
		if (n == SYS_futex && simulated())
		{
			int* const addr = reinterpret_cast<int*>(a[0]);
			const int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
			if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
			{
				if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2]))
				{
					errno = EAGAIN;
					return -1;
				}
				if (a[3])	// a timed wait: the time passes
				{
					point_impl(P_SYNC, true);
					errno = ETIMEDOUT;
					return -1;
				}
				block(BlockedCond, addr, -1);
				return 0;
			}
			if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
			{
				long woken = 0;
				for (int i = 0; i < g_nTasks && woken < a[2]; ++i)
					if (g_tasks[i].state == BlockedCond && g_tasks[i].waitOn == addr)
					{
						g_tasks[i].state = Runnable;
						++woken;
					}
				point_impl(P_SYNC, false);
				return woken;
			}
		}
		return real_syscall()(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	}

	// --- guards of function local statics
	int __cxa_guard_acquire(long long int* g)
	{
		auto* b = reinterpret_cast<uint8_t*>(g);
		for (;;)
		{
			if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE))
			{
				if (simulated())
					acquire(sync_obj(g));
				return 0;
			}
			uint8_t expected = 0;
			if (__atomic_compare_exchange_n(&b[1], &expected, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
			{
				if (simulated())
					acquire(sync_obj(g));	// (an attempt of another task may have failed)
				return 1;
			}
			if (simulated())
				block(BlockedGuard, g, -1);
			else
				syscall(SYS_sched_yield);
		}
	}
	void __cxa_guard_release(long long int* g)
	{
		auto* b = reinterpret_cast<uint8_t*>(g);
		__atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
		if (simulated())
		{
			release(sync_obj(g));
			wake(BlockedGuard, g);
		}
	}
	void __cxa_guard_abort(long long int* g)
	{
		auto* b = reinterpret_cast<uint8_t*>(g);
		__atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
		if (simulated())
		{
			release(sync_obj(g));
			wake(BlockedGuard, g);
		}
	}

	// --- std::call_once
	int pthread_once(pthread_once_t* o, void (*fn)())
	{
		if (!simulated())
		{
			static auto f = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
			return f(o, fn);
		}
		point_impl(P_SYNC, false);
		check_alive(o);
		while (*o == 1)
		{
			block(BlockedGuard, o, -1);
			check_alive(o);
		}
		acquire(sync_obj(o));
		if (*o == 2)
			return 0;
		struct Reset
		{
			pthread_once_t* o;
			int state = 0;
			~Reset()
			{
				*o = state;
				release(sync_obj(o));
				wake(BlockedGuard, o);
			}
		} r{o};
		*o = 1;
		fn();
		r.state = 2;
		return 0;
	}

	// --- annotations of locks which are made of atomics (std::atomic<std::shared_ptr<T>>)
	void __tsan_mutex_create(void*, unsigned) {}
	void __tsan_mutex_destroy(void*, unsigned) {}
	void __tsan_mutex_pre_lock(void*, unsigned) {}
	void __tsan_mutex_post_lock(void* m, unsigned flags, int)
	{
		if (simulated() && !(flags & (1u << 5)))
			acquire(sync_obj(m));
	}
	int __tsan_mutex_pre_unlock(void* m, unsigned)
	{
		if (simulated())
			release(sync_obj(m));
		return 0;
	}
	void __tsan_mutex_post_unlock(void*, unsigned) {}
	void __tsan_mutex_pre_signal(void*, unsigned) {}
	void __tsan_mutex_post_signal(void*, unsigned) {}
	void __tsan_mutex_pre_divert(void*, unsigned) {}
	void __tsan_mutex_post_divert(void*, unsigned) {}
	void __tsan_acquire(void* p)
	{
		if (simulated())
			acquire(sync_obj(p));
	}
	void __tsan_release(void* p)
	{
		if (simulated())
			release(sync_obj(p));
	}

	// ------------------------------------------------------------------ instrumentation entry points
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
#define RT_ACC(N) \
	void __tsan_read##N(void* p) { access(p, N, false); } \
	void __tsan_write##N(void* p) { access(p, N, true); } \
	void __tsan_volatile_read##N(void* p) { access(p, N, false); } \
	void __tsan_volatile_write##N(void* p) { access(p, N, true); } \
	void __tsan_unaligned_read##N(void* p) { access(p, N, false); } \
	void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
	void __tsan_read_write##N(void* p) { access(p, N, true); } \
	void __tsan_unaligned_read_write##N(void* p) { access(p, N, true); }
	RT_ACC(1)
	RT_ACC(2)
	RT_ACC(4)
	RT_ACC(8)
	RT_ACC(16)
	void __tsan_read_range(void* p, size_t n)
	{
		if (n)
			access(p, n, false);
	}
	void __tsan_write_range(void* p, size_t n)
	{
		if (n)
			access(p, n, true);
	}
	void __tsan_vptr_update(void** p, void* v)
	{
		if (*p != v)
			access(p, 8, true);
	}
	void __tsan_vptr_read(void** p) { access(p, 8, false); }

	static void atomic_point(const volatile void* p)
	{
		if (!simulated())
			return;
		++g_stats.atomicOps;
		const void* q = const_cast<const void*>(p);
		point_impl(P_SYNC, false);
		if (in_arena(q))
		{
			const uint8_t s = g_gran[(reinterpret_cast<uint64_t>(q) - kArenaBase) / 16];
			if (s != 1)
				violation(s == 2 ? "use-after-free" : "heap-overflow", "task %d: atomic access to %s memory (pc %p)", tls_task, s == 2 ? "freed" : "unallocated", __builtin_return_address(0));
		}
		if (g_parallel)
		{
			SyncObj& o = sync_obj(q);
			acquire(o);
			release(o);
		}
	}
#define RT_ATOMIC(B, T) \
	T __tsan_atomic##B##_load(const volatile T* p, int) { atomic_point(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##B##_store(volatile T* p, T v, int) { atomic_point(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { atomic_point(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomic_point(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomic_point(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomic_point(p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
	RT_ATOMIC(8, uint8_t)
	RT_ATOMIC(16, uint16_t)
	RT_ATOMIC(32, uint32_t)
	RT_ATOMIC(64, uint64_t)
	void __tsan_atomic_thread_fence(int) {}
	void __tsan_atomic_signal_fence(int) {}
}
