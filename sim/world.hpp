// Interface between the executor (harness) and the ports (code under test).
#pragma once
#include "prog.hpp"
#include "rt.hpp"

#include <cstdint>
#include <source_location>
#include <stdexcept>
#include <string>

namespace mimicpp
{
	class ScopedExpectation;
}

namespace sim
{
	// ------------------------------------------------------------------ exceptions used by user code of the simulation
	struct MatcherError : std::runtime_error
	{
		int inst;
		explicit MatcherError(int i) : std::runtime_error{"matcher error " + std::to_string(i) + "."}, inst{i} {}
	};
	struct MatcherCode	// some throw this instead
	{
		int inst;
		static bool used_by(int inst) { return inst % 3 == 1; }
	};
	// a value, which notices if it has been moved from
	struct Token
	{
		int v;
		explicit Token(int x) : v{x} {}
		Token(const Token&) = default;
		Token& operator=(const Token&) = default;
		Token(Token&& o) noexcept : v{o.v} { o.v = -777; }
		Token& operator=(Token&& o) noexcept
		{
			const int x = o.v;
			o.v = -777;
			v = x;
			return *this;
		}
	};
	struct ActionError
	{
		Token value;
	};
	struct StdActionError : std::runtime_error
	{
		Token value;
		explicit StdActionError(Token v) : std::runtime_error{"an exception of the user"}, value{v} {}
	};
	enum class ActionCode : int {};
	[[noreturn]] inline void throw_action(int kind, int value)
	{
		if (kind == 2)
			throw StdActionError{Token{value}};
		if (kind == 3)
			throw ActionCode{value};
		throw ActionError{Token{value}};
	}
	struct PrinterError
	{
		int value;
	};
	struct UnwindError
	{
		int value;
	};

	// ------------------------------------------------------------------ forged source locations
	struct LocImpl	// layout of libstdc++'s std::source_location::__impl
	{
		const char* file;
		const char* function;
		unsigned line;
		unsigned column;
	};
	std::source_location make_loc(const LocImpl* impl);

	// ------------------------------------------------------------------ calls
	struct CallCtx
	{
		int v[kArgs] = {0, 0, 0};		// in: argument values; out: final values of reference arguments
		std::source_location loc;
		int result = 0;
		const void* resultAddr = nullptr;
		const void* argAddr[kArgs] = {nullptr, nullptr, nullptr};	// addresses of reference arguments
		bool returned = false;
	};

	struct ArgView
	{
		int n = 0;
		int val[kArgs] = {0, 0, 0};
		const void* addr[kArgs] = {nullptr, nullptr, nullptr};
		bool isConst[kArgs] = {false, false, false};
		bool dirty[kArgs] = {false, false, false};
		int nth = 0;	// how often has this function object been invoked (0: unknown)
	};

	// callbacks from user actions into the harness
	bool cb_stateful();		// may functions have a state? (not synchronised, thus in single task programs only)
	bool cb_match(int inst, int argIndex, int form, int value);
	void cb_effect(int inst, int k, ArgView& view);
	int cb_finalize(int inst, int form, ArgView& view);
	int* cb_ref(int inst);
	int cb_duty(int inst);		// when is the policy of the user satisfied: 0 always, 1 never, 2 after an even number of calls
	void cb_operand_changed(int inst);	// a named operand was modified by the definition of an expectation
	void cb_print(int value);	// may throw PrinterError

	struct Keeper;
	struct CreateCtx
	{
		Keeper* keeper = nullptr;
		const Op* op;
		int inst;
		void* seq[3];
		std::source_location loc;
	};

	using CreateFn = ::mimicpp::ScopedExpectation* (*)(void* mock, const CreateCtx&);

	struct PortOps
	{
		void* (*make)();
		void (*destroy)(void*);
		void* (*moveConstruct)(void*);
		void (*moveAssign)(void* dst, void* src);
		void (*call)(void* mock, int ep, CallCtx&);
		int nColl;
		const CreateFn* create;
	};
	const PortOps& port_ops(int port);

	// value of a matcher; 0: no, 1: yes, 2: throws
	inline int match_a(const Op& o, int index) { return index == 0 ? o.a : index == 1 ? o.c : o.e; }
	inline int match_b(const Op& o, int index) { return index == 0 ? o.b : index == 1 ? o.d : o.f; }
	int match_value(int form, int a, int b, int value);

	// ------------------------------------------------------------------ sequences
	void* seq_make(char kind);
	void seq_destroy(char kind, void* p);
	long seq_tag(char kind, void* p);

	// ------------------------------------------------------------------ handles
	void handle_destroy(::mimicpp::ScopedExpectation* e, int ctx);	// ctx: see OP_DESTROY
	::mimicpp::ScopedExpectation* handle_move(::mimicpp::ScopedExpectation* e);	// move constructs a new handle, source remains as shell
	void handle_assign(::mimicpp::ScopedExpectation* dst, ::mimicpp::ScopedExpectation* src);
	void handle_swap(::mimicpp::ScopedExpectation* a, ::mimicpp::ScopedExpectation* b);
	bool handle_satisfied(::mimicpp::ScopedExpectation* e);
	unsigned handle_line(::mimicpp::ScopedExpectation* e);

	// incomplete builds; returns a code of what happened (0: dropped normally, 1: invalid_argument, 2: something else)
	int bad_build(int variant, void* intMock, const CreateCtx& ctx);

	// ------------------------------------------------------------------ watched objects
	void* obj_make(int type);
	void obj_destroy(int type, void* p);
	void* obj_move(int type, void* src);
	void obj_assign(int type, void* dst, void* src);
	void* obj_copy(int type, const void* src);
	void obj_copy_assign(int type, void* dst, const void* src);
	extern const CreateFn* const destruct_leaves;
	extern const CreateFn* const reloc_leaves;
	struct ObjRef { int type; void* p; };	// passed as mock to the pseudo ports

	// ------------------------------------------------------------------ reporters
	void install(int kind, int reporterId, bool throwing);
}
