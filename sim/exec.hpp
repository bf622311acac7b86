// Recorded history of one run.
#pragma once
#include "prog.hpp"
#include "world.hpp"

#include <deque>
#include <string>
#include <vector>

namespace sim
{
	enum RecKind { R_CALL, R_CREATE, R_DESTROY, R_QUERY, R_SEQDEL, R_OTHER, R_BAD, R_SERIES, R_CHURN };
	enum RepKind { RP_FULL, RP_INAPP, RP_NONE, RP_UNFUL, RP_ERROR, RP_UNHANDLED };
	enum OutKind
	{
		O_OK,
		O_FAILURE,		// failed verdict raised by the reporter (no match or inapplicable)
		O_UNFUL,		// unfulfilled expectation raised by the reporter
		O_ERROR,		// other error raised by the reporter
		O_ACTION,		// ActionError
		O_PRINTER,		// PrinterError
		O_MATCHER,		// MatcherError
		O_BADALLOC,
		O_INVALID,		// std::invalid_argument
		O_LOGIC,		// other std::logic_error
		O_OTHER
	};
	enum ExpState { ES_APPLICABLE, ES_INAPPLICABLE, ES_SATURATED, ES_UNKNOWN };

	struct ReqRep	// a requirement of an expectation
	{
		int arg = -1;		// the argument it is about
		int match = -1;		// -1 not stated
		std::string text;
	};

	struct ExpRep
	{
		int inst = -1;		// the source location (see World::site)
		int state = ES_UNKNOWN;
		int min = 0, max = 0, count = 0;
		int seqs = 0;		// number of sequences mentioned
		int inapplicable = -1;	// number of sequences, whose current element it is not
		std::vector<unsigned long long> tags;	// of the sequences it can't be matched in
		bool allMatch = false;
		bool hasReqs = false;
		std::vector<ReqRep> reqs;
		bool hasTimes = false;
		std::vector<int> times;	// the numbers of the textual description
	};

	struct Rep
	{
		int kind = 0;
		uint64_t t = 0;
		int reporter = 0;
		bool current = true;	// reported to the installed reporter
		bool details = false;
		bool threw = false;
		int uncaught = 0;
		int line = -1;			// call id or -1
		int category = 0, constness = 0;
		int nArgs = 0;
		std::string args[kArgs];
		std::string types[kArgs];
		std::string ret;
		int announced = -1;		// number of expectations stated in a text
		std::vector<ExpRep> exps;
		int excInst = -1;		// unhandled: instance of the MatcherError
		bool excBadAlloc = false;
		std::string text;
	};

	struct FxRec
	{
		int inst, k;
		int n;
		int in[kArgs], out[kArgs];
		const void* addr[kArgs];
		uint64_t t;
	};

	struct FinRec
	{
		int inst, form;
		int n;
		int in[kArgs];
		const void* addr[kArgs];
		int value;
		bool threw;
		uint64_t t;
	};

	struct Rec
	{
		int kind = 0;
		int task = 0;
		int opId = 0;
		int op = 0;
		int id = 0;				// call id / expectation instance / sequence identity
		uint64_t t0 = 0, t1 = 0;
		uint64_t tUser = 0, tLastUser = 0;
		int parent = -1;
		bool inMatcher = false;	// (of its parent)
		int reporterKind = 0;
		int uncaught = 0;		// exceptions in flight on this task, when the operation started
		std::vector<Rep> reps;

		// calls
		int port = 0, ep = 0, coll = -1;
		bool noCall = false;	// watcher operation, which must not report anything
		int in[kArgs] = {0, 0, 0};
		bool fault = false;		// an allocation failed during this operation
		bool printFails = false;
		std::vector<FxRec> fx;
		std::vector<FinRec> fin;
		int out[kArgs] = {0, 0, 0};
		const void* argAddr[kArgs] = {nullptr, nullptr, nullptr};
		const void* resultAddr = nullptr;
		int result = 0;

		int outcome = O_OK;
		int value = 0;			// ActionError: value; O_FAILURE: report index; ...
		std::string text;		// what()
		std::vector<ExpRep> excExps;	// data of the exception (DefaultReporter)
		int excLine = -1;
		bool hasExcData = false;

		bool queried = false;
		std::vector<std::pair<int, int>> series;	// (expectation, number of calls it has accepted in a row), -1: rejected
		int variant = 0;
		uint64_t end() const { return kind == R_CALL && tUser ? tUser : t1; }
	};

	struct Inst
	{
		int id = 0;
		int port = 0, coll = 0, ep = 0;
		LeafInfo leaf{};
		Op op;
		int lo = 1, hi = 1;
		int nSeq = 0;
		int seq[3] = {-1, -1, -1};	// sequence identities
		char seqKind[3] = {0, 0, 0};
		int createRec = -1;
		int category = 3, constness = 3;
		int fxCalls[3] = {0, 0, 0};	// invocations of its side effects
		int finCalls = 0;
		int duty = 0;			// has got a policy, which is never satisfied (1), or satisfied after an even number of calls (2)
	};

	struct SeqIdent
	{
		char kind;
		int delRec = -1;
	};

	// what happened in a run, as a bit set (used as measure for the interesting runs)
	enum Feature
	{
		FT_OVERLAP_CALLS,		// calls of different tasks overlap
		FT_OVERLAP_DESTROY,		// an expectation is destroyed while a call matched by it is running
		FT_SELF_DESTROY,		// ... by its own action
		FT_REENTRANT_CALL,		// an action calls the mock it is called from
		FT_REENTRANT_OP,		// an action creates or destroys expectations of its mock
		FT_BLOCKED_ACTION,		// an action waited for another task
		FT_OP_DURING_ACTION,	// another task completes an operation on the same mock while an action runs
		FT_MATCHER_THREW,
		FT_MATCHER_THREW_ACCEPTED,
		FT_REJECTED,
		FT_REJECTED_THEN_ACCEPTED,
		FT_PRINT_FAILED,
		FT_ACTION_THREW,
		FT_UNFULFILLED,
		FT_UNFULFILLED_UNWIND,
		FT_FULFILLED_END,
		FT_LIMIT_REACHED,
		FT_INAPPLICABLE,
		FT_SEQ_ACCEPT,
		FT_SEQ_BLOCKED,
		FT_SEQ_CHOICE,			// several applicable candidates with the same sequences
		FT_SEQ_CHOICE_MULTI,
		FT_SEQ_CROSS_MOCK,
		FT_SHADOWED,			// several applicable candidates without sequences
		FT_SIBLINGS,			// a call, while expectations of sibling overloads are alive
		FT_MOCK_MOVED,
		FT_MOCK_DEAD_FIRST,		// an expectation outlives its mock
		FT_HANDLE_MOVED,
		FT_HANDLE_ASSIGNED,
		FT_REPORTER_CHANGED,
		FT_VERDICT_FULL,
		FT_VERDICT_FAIL,
		FT_DESTRUCT_ACCEPTED,
		FT_DESTRUCT_UNMATCHED,
		FT_IDENTITY_MOVED,
		FT_DESTRUCT_REFUSED,
		FT_RELOC_ACCEPTED,
		FT_RELOC_UNMATCHED,
		FT_RELOC_CARRIED,
		FT_MULTI_FX,
		FT_ARG_MODIFIED,
		FT_NESTED,
		FT_SEQ_DEATH_BAD,
		FT_SEQ_DEATH_GOOD,
		FT_SEQ_HANDLE_FIRST,
		FT_BAD_BUILD,
		FT_BAD_BUILD_USED_AFTER,
		FT_REPEATED,			// an expectation accepts further calls after the first one
		FT_FAULT,
		FT_FAULT_BADALLOC,
		FT_FAULT_UNAVAILABLE,
		FT_CALLS_AFTER_FAULT,
		FT_COUNT
	};
	extern const char* const kFeatureNames[FT_COUNT];

	struct World
	{
		const Program* prog = nullptr;
		std::deque<Inst> insts;			// index == id
		std::deque<Rec> recs;			// in order of their start
		std::deque<SeqIdent> seqs;
		std::deque<int> refCells;
		int colls = 0;
		uint64_t features = 0;
		uint64_t callsAccepted = 0, callsRejected = 0;
		uint64_t histHash = 0;
		uint64_t schedHash = 0;
		bool heapClean = true;
		bool limited = false;			// operations have been left out, because the program is too long
		rt::RunStats stats{};
		uint64_t matcherThrows = 0, matcherCalls = 0, twins = 0, actionThrows = 0, printerThrows = 0, unwinds = 0, opsRun = 0;
		bool undecided = false;			// the search for an explanation has been given up
		std::vector<rt::SchedEntry> schedule;
		int current = -1;				// index of the last started record per diagnosis

		// expectations and calls are recognized by their source location, which may be shared
		int site(int id) const { return prog->sites > 0 ? id % prog->sites : id; }
		void feature(Feature f) { features |= 1ull << f; }
	};

	void execute(const Program& p, World& w);		// runs the program in the simulator
	bool check(World& w, std::string& error);		// false: the history violates the model

	std::string describe(const World& w);			// human readable history

	// callbacks of the reporters
	int rep_begin(Rep&& rep, int reporter);			// returns the index of the report within the current record
	int uncaught_now();
	void classify(Rec& rec);						// to be used inside a catch block
	bool alloc_fault_active();						// the run has injected a failing allocation into the current operation
	Program const* running_program();
	extern World* g_world;
}
