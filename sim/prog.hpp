// The explicit form of one simulated program: everything a run does is a pure function of a Program
// (plus the code under test). Programs are generated from one integer, can be printed, parsed and minimised.
#pragma once
#include "rt.hpp"

#include <cstdint>
#include <string>
#include <string_view>
#include <vector>

namespace sim
{
	enum PortId
	{
		PT_INT,		// Mock<int(int)>
		PT_VOID,	// Mock<void()>
		PT_REFQ,	// Mock<int(int)&, int(int)const&, int(int)&&, int(int)const&&>: one shared collection
		PT_OVL,		// Mock<int(int), int(int)const, int(const std::string&), void(int&, int)>
		PT_REFSTR,	// Mock<void(int&, std::string)>
		PT_IFACE,	// interface mock generated by the mocking macros
		PT_MOVE,	// Mock<int(std::unique_ptr<int>)>
		PT_PRN,		// Mock<int(Fragile)>: printing the argument may throw
		PT_CONST,	// Mock<int(int, const int&) const>
		PT_REFRET,	// Mock<int&(int&)>
		PT_WIDE,	// several arguments of different types, values and exceptions with a state of their own
		PT_IFACE2,	// interface mock with qualified, overloaded and many-argument methods
		PT_NOEX,	// noexcept signatures with all qualifications (a base expectation accepts everything, so no call is ever rejected)
		PT_DESTRUCT,	// pseudo port: destruct expectations of watched objects
		PT_RELOC,		// pseudo port: relocation expectations of watched objects
		PT_COUNT
	};

	// the end of the text which stands for a value (no text is a part of another one): some are long, some are nasty
	inline std::string_view text_end(int v)
	{
		if (v % 8 == 5)
			return ". This one is long 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 "
				"0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 end";
		if (v % 8 == 6)
			return ". {} {0} {:x} }{ %s %n \\ \x01";
		return ".";
	}

	enum MatcherForm { M_ANY, M_EQ, M_LT, M_NE, M_PRED };
	enum TimesForm { T_DEF, T_RANGE, T_EXACT, T_ATLEAST, T_ATMOST, T_ONCE, T_TWICE };
	enum SeqForm { S_NONE, S_L, S_G, S_LL, S_LG, S_GG, S_L_L, S_L_G, S_LLL, S_L_LG };
	enum FxForm { E_0, E_A, E_I, E_AI, E_IAL, E_P, E_R };
	enum FinForm { F_VOID, F_VAL, F_CB, F_ARG, F_THROW, F_APPLY, F_ALL, F_REF, F_ARG2, F_PERM };
	enum ArgType { AT_INT, AT_TEXT, AT_PTR, AT_FRAGILE, AT_PAYLOAD, AT_VOID };
	constexpr int kArgs = 3;

	struct LeafInfo
	{
		uint8_t m, t, s, e, f, o;	// o: order of the policies
		uint8_t ep;
		uint8_t x = 0;		// how the requirements are attached (0: expect_call, 1: additionally expect::arg)
	};

	struct ArgInfo
	{
		uint8_t type = AT_INT;
		bool ref = false;	// an object of the caller
		bool cst = false;
	};

	struct EpInfo
	{
		const char* name;
		int coll;		// index of the expectation collection within the mock
		int nArgs;
		int category;	// 1 lvalue, 2 rvalue, 3 any
		int constness;	// 1 non const, 2 const, 3 any (mimic++ encoding is checked at start up)
		bool from;		// the call location can be chosen
		bool noexceptCall;
		ArgInfo arg[kArgs] = {};
		bool refRet = false;	// a reference is returned
		uint8_t ret = AT_INT;	// returned type
	};

	const char* type_name(int argType);	// typeid of the decayed type
	int effect_count(int fxForm);
	std::vector<int> effect_args(int fxForm, int k, int nArgs);	// the arguments side effect k operates on
	std::vector<int> finalizer_args(int finForm, int nArgs);
	int seq_count(int seqForm);
	const char* seq_kinds(int seqForm);	// e.g. "LG"

	enum OpKind
	{
		OP_NONE,
		OP_CREATE, OP_DESTROY, OP_MOVE, OP_ASSIGN, OP_SWAP, OP_QUERY,
		OP_CALL,
		OP_NEWMOCK, OP_DELMOCK, OP_MOVEMOCK, OP_ASSIGNMOCK,
		OP_NEWSEQ, OP_DELSEQ,
		OP_REPORTER,
		OP_BAD,
		OP_WAIT, OP_SIGNAL, OP_YIELD,
		OP_UNWIND,		// runs a block from a destructor while an exception is in flight
		OP_SERIES,		// d equal calls, executed without instrumentation
		OP_CHURN,		// d times: create an expectation (in a sequence or not), call it and destroy it; executed without instrumentation
		OP_OBJNEW, OP_OBJDEL, OP_OBJMOVE, OP_OBJASSIGN, OP_OBJCOPY, OP_OBJCOPYASSIGN,
		OP_COUNT
	};

	struct Op
	{
		int kind = 0;
		int id = 0;		// stable identity (survives minimisation)
		int slot = 0, slot2 = 0;
		int mock = 0, mock2 = 0, ep = 0, leaf = 0;
		int a = 0, b = 0, c = 0, d = 0, e = 0, f = 0;
		int rep = 1;	// number of repetitions (calls and creations)
		int tmin = 1, tmax = 1;
		int seq[3] = {0, 0, 0};
		int fx[3] = {-1, -1, -1};
		int mod = 0;
		int fin = -1;
		int finThrow = 0;	// kind of the exception thrown by the finalizer
		int ctx = 0;
		int ev = 0;
		int block = -1;
		int fault = 0;
	};

	using Block = std::vector<Op>;

	struct MockDecl { int port; bool initial; };
	struct SeqDecl { char kind; bool initial; int before = 0; };	// before: sequences which are created and dropped before
	struct ObjDecl { int type; };	// 0 L, 1 R, 2 R+L, 3 L virtual base, 4 bare L, 5 bare R

	enum ReporterKind { RK_SIM, RK_SIMTHROW, RK_BASIC, RK_DEFAULT, RK_CATCH2, RK_GTEST, RK_BOOST, RK_DOCTEST, RK_COUNT };
	inline bool is_builtin(int reporter) { return reporter >= RK_BASIC; }	// throws only if no exception is in flight

	struct Program
	{
		std::string profile;
		uint64_t seed = 0;
		int reporter = RK_SIM;
		int mode = 0;			// 0 single, 1 op/callback level, 2 sync level, 3 access level, 4 pct
		bool predYield = false;
		int slots = 0;
		int unwindTeardown = 0;
		int sites = 0;			// source locations: 0 one per expectation and call, n > 0: only n different ones, -1: differ by their column only
		std::vector<MockDecl> mocks;
		std::vector<SeqDecl> seqs;
		std::vector<ObjDecl> objs;
		std::vector<Block> blocks;
		int setup = -1, teardown = -1;
		std::vector<int> tasks;	// block ids

		// schedule
		std::vector<uint64_t> before;	// seeds of programs which are executed before in the same process (normally none)
		int warm = -1;			// number of warm up programs to be executed before (-1: all)
		uint64_t schedSeed = 0;
		uint32_t p[rt::P_KINDS] = {0, 0, 0, 0};
		int pctPoints = 0;
		uint32_t pctRange = 0;
		bool replay = false;
		std::vector<rt::SchedEntry> entries;
	};

	std::string to_text(const Program& p);
	bool from_text(const std::string& text, Program& p, std::string& error);
	const char* op_name(int kind);
	const char* port_name(int port);

	// generation
	bool generate(const std::string& profile, uint64_t seed, Program& out);
	std::vector<std::string> profile_names();

	// leaf tables (defined by the ports)
	const std::vector<LeafInfo>& leaves(int port);
	const std::vector<EpInfo>& eps(int port);
}
