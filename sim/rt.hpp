// Deterministic runtime: virtual threads with a seeded scheduler, simulated locks, a simulated heap with
// use-after-free detection, a happens-before race detector and allocation-fault injection.
// Code under test is compiled with -fsanitize=thread, but linked against this runtime instead of libtsan:
// every memory access, atomic operation and lock operation of the code under test becomes a scheduling point.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt
{
	constexpr int kMaxTasks = 6;
	constexpr int kMaxEvents = 16;
	constexpr int kMaxSched = 6000;

	enum PointKind { P_OP, P_CB, P_SYNC, P_MEM, P_KINDS };

	struct SchedEntry
	{
		int task;
		uint32_t at;	// local event count of the task
		int to;
	};

	struct SchedCfg
	{
		uint64_t seed = 1;
		uint32_t p[P_KINDS] = {0, 0, 0, 0};	// switch probability in units of 1/2^32
		int pctPoints = 0;		// number of priority change points (0: off)
		uint32_t pctRange = 0;
		bool replay = false;
		const SchedEntry* entries = nullptr;
		int nEntries = 0;
		uint64_t maxEvents = 12000000;
		bool raceDetect = true;	// off: the program synchronizes all uses of the code under test externally
	};

	// ---- statistics / probes of the current run
	struct RunStats
	{
		uint64_t events[P_KINDS];
		uint64_t switches[P_KINDS];
		uint64_t blockedOnMutex;
		uint64_t blockedOnEvent;
		uint64_t forcedEvents;
		uint64_t allocs;
		uint64_t allocFaults;
		uint64_t frees;
		uint64_t lockOps;
		uint64_t atomicOps;
		uint64_t racesChecked;
	};

	using BodyFn = void (*)(void* ctx, int task);
	using ViolationFn = void (*)(const char* kind, const char* msg);	// must not return

	void init(ViolationFn onViolation);	// process wide, before fork
	void worker_init();					// in the process which runs simulations (starts the pool)

	void worker_exit();					// ends the pool (e.g. before a fork)

	void begin_run(const SchedCfg& cfg);
	void run_phase(BodyFn fn, void* ctx, int nTasks);	// runs body(ctx, 0..n-1) as virtual threads
	bool heap_low();									// much memory leaked: the process should be replaced
	bool end_run();										// returns false, if the heap couldn't be recycled

	int self();							// task index or -1
	void point(PointKind kind);			// explicit scheduling point
	void wait_event(int id);
	void signal_event(int id);
	void sync_acquire(const void* key);	// happens-before edges for user level hand-overs
	void sync_release(const void* key);
	void skip_schedule_points(int delta);	// +1/-1: nested region without involuntary switches
	uint64_t total_events();			// scheduling points of this run
	uint64_t now();						// logical time of this run
	uint32_t local_events(int task);

	void arm_alloc_fault(int n);		// the n-th allocation of code under test by the current task fails (1-based); <= 0: disarm
	bool alloc_fault_fired();			// by the current task since the last take
	bool take_alloc_fault();			// reads and clears the flag
	bool holds_lock();					// does the current task own any simulated lock

	const RunStats& stats();
	const SchedEntry* schedule(int& n);
	uint64_t schedule_hash();

	[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

	extern thread_local bool tls_in_sut;

	struct Sut	// entering code under test
	{
		bool saved = tls_in_sut;
		Sut() { tls_in_sut = true; }
		~Sut() { tls_in_sut = saved; }
		Sut(const Sut&) = delete;
	};
	struct Harness	// back in harness code (from callbacks)
	{
		bool saved = tls_in_sut;
		Harness() { tls_in_sut = false; }
		~Harness() { tls_in_sut = saved; }
		Harness(const Harness&) = delete;
	};
}
