// Ports for void functions, overload sets and special argument and return types.
#include "ports.hpp"

#ifndef PART
#define PART 0
#endif

namespace sim
{
	template <typename P, const auto& table>
	static PortOps ops(int nColl) { return make_ops<P>(make_table<P, table>(), nColl); }
	template <std::size_t n>
	static std::vector<LeafInfo> vec(const LeafInfo (&t)[n]) { return {t, t + n}; }

#if PART == 0
	// ------------------------------------------------------------------ Mock<void()>
	struct PortVoid
	{
		static constexpr bool hasArgs = false;
		using MockT = mimicpp::Mock<void()>;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx&) { return m.expect_call(); }
		static void call(void* p, int, CallCtx& c)
		{
			(*static_cast<MockT*>(p))(c.loc);
			c.returned = true;
		}
	};
	static constexpr LeafInfo kVoidLeaves[] = {
		{M_ANY, T_DEF, S_NONE, E_0, F_VOID, 0, 0},
		{M_ANY, T_RANGE, S_NONE, E_I, F_VOID, 0, 0},
		{M_ANY, T_RANGE, S_NONE, E_IAL, F_THROW, 1, 0},
		{M_ANY, T_ATLEAST, S_NONE, E_AI, F_VOID, 2, 0},
		{M_ANY, T_DEF, S_NONE, E_I, F_THROW, 0, 0},
		{M_ANY, T_DEF, S_L, E_0, F_VOID, 0, 0},
		{M_ANY, T_RANGE, S_L, E_I, F_VOID, 1, 0},
		{M_ANY, T_RANGE, S_G, E_0, F_VOID, 0, 0},
		{M_ANY, T_EXACT, S_LG, E_I, F_THROW, 0, 0},
		{M_ANY, T_RANGE, S_LLL, E_0, F_VOID, 0, 0},
	};

	PortOps ops_void() { return ops<PortVoid, kVoidLeaves>(1); }
	std::vector<LeafInfo> leaves_void() { return vec(kVoidLeaves); }

#elif PART == 1
	// ------------------------------------------------------------------ argument types
	struct PortRefStr
	{
		static constexpr bool hasArgs = true;
		using MockT = mimicpp::Mock<void(int&, std::string)>;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c) { return m.expect_call(om<L, L.m, int, 0>(c), om < L, L.m == M_ANY || L.m == M_EQ ? L.m : M_PRED, std::string, 1 > (c)); }
		static void call(void* p, int, CallCtx& c)
		{
			c.argAddr[0] = &c.v[0];
			(*static_cast<MockT*>(p))(c.v[0], text_of(c.v[1]), c.loc);
			c.returned = true;
		}
	};
	static constexpr LeafInfo kRefStrLeaves[] = {
		{M_ANY, T_DEF, S_NONE, E_A, F_VOID, 0, 0},
		{M_EQ, T_RANGE, S_NONE, E_IAL, F_VOID, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_AI, F_VOID, 1, 0},
		{M_PRED, T_ATLEAST, S_NONE, E_IAL, F_THROW, 2, 0},
		{M_ANY, T_RANGE, S_NONE, E_IAL, F_VOID, 2, 0},
		{M_LT, T_DEF, S_NONE, E_0, F_VOID, 0, 0},
		{M_PRED, T_DEF, S_L, E_A, F_VOID, 0, 0},
		{M_ANY, T_RANGE, S_G, E_IAL, F_THROW, 0, 0},
	};

	PortOps ops_refstr() { return ops<PortRefStr, kRefStrLeaves>(1); }
	std::vector<LeafInfo> leaves_refstr() { return vec(kRefStrLeaves); }

#elif PART == 2
	struct PortMove
	{
		static constexpr bool hasArgs = true;
		using MockT = mimicpp::Mock<int(std::unique_ptr<int>)>;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c) { return m.expect_call(om<L, L.m, std::unique_ptr<int>, 0>(c)); }
		static void call(void* p, int, CallCtx& c)
		{
			auto arg = std::make_unique<int>(c.v[0]);
			c.result = (*static_cast<MockT*>(p))(std::move(arg), c.loc);
			c.returned = true;
		}
	};
	static constexpr LeafInfo kMoveLeaves[] = {
		{M_ANY, T_DEF, S_NONE, E_A, F_VAL, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_IAL, F_CB, 0, 0},
		{M_EQ, T_RANGE, S_NONE, E_AI, F_APPLY, 1, 0},
		{M_PRED, T_ATLEAST, S_NONE, E_0, F_THROW, 0, 0},
		{M_PRED, T_DEF, S_L, E_A, F_VAL, 0, 0},
	};

	PortOps ops_move() { return ops<PortMove, kMoveLeaves>(1); }
	std::vector<LeafInfo> leaves_move() { return vec(kMoveLeaves); }

	struct PortPrn
	{
		static constexpr bool hasArgs = true;
		using MockT = mimicpp::Mock<int(Fragile)>;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c) { return m.expect_call(om<L, L.m, Fragile, 0>(c)); }
		static void call(void* p, int, CallCtx& c)
		{
			c.result = (*static_cast<MockT*>(p))(Fragile{c.v[0]}, c.loc);
			c.returned = true;
		}
	};
	static constexpr LeafInfo kPrnLeaves[] = {
		{M_ANY, T_DEF, S_NONE, E_0, F_VAL, 0, 0},
		{M_ANY, T_RANGE, S_NONE, E_A, F_CB, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_IAL, F_VAL, 1, 0},
		{M_PRED, T_ATLEAST, S_NONE, E_I, F_THROW, 0, 0},
		{M_PRED, T_DEF, S_L, E_A, F_VAL, 0, 0},
		{M_ANY, T_RANGE, S_LG, E_0, F_CB, 0, 0},
	};

	PortOps ops_prn() { return ops<PortPrn, kPrnLeaves>(1); }
	std::vector<LeafInfo> leaves_prn() { return vec(kPrnLeaves); }

#else
	struct PortConst
	{
		static constexpr bool hasArgs = true;
		using MockT = mimicpp::Mock<int(int, const int&) const>;
		template <LeafInfo L>
		static auto expect(const MockT& m, const CreateCtx& c) { return m.expect_call(om<L, L.m, int, 0>(c), om < L, L.m == M_ANY || L.m == M_EQ ? L.m : M_PRED, int, 1 > (c)); }
		static void call(void* p, int, CallCtx& c)
		{
			const int second = c.v[1];
			c.argAddr[1] = &second;
			c.result = (*static_cast<const MockT*>(p))(int{c.v[0]}, second, c.loc);
			c.returned = true;
		}
	};
	static constexpr LeafInfo kConstLeaves[] = {
		{M_ANY, T_DEF, S_NONE, E_IAL, F_ALL, 0, 0},
		{M_EQ, T_RANGE, S_NONE, E_A, F_VAL, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_IAL, F_ARG, 1, 0},
		{M_PRED, T_ATLEAST, S_NONE, E_I, F_THROW, 0, 0},
		{M_LT, T_DEF, S_NONE, E_0, F_CB, 0, 0},
		{M_ANY, T_RANGE, S_L, E_A, F_VAL, 0, 0},
	};

	PortOps ops_const() { return ops<PortConst, kConstLeaves>(1); }
	std::vector<LeafInfo> leaves_const() { return vec(kConstLeaves); }

	struct PortRefRet
	{
		static constexpr bool hasArgs = true;
		using MockT = mimicpp::Mock<int&(int&)>;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c) { return m.expect_call(om<L, L.m, int, 0>(c)); }
		static void call(void* p, int, CallCtx& c)
		{
			c.argAddr[0] = &c.v[0];
			int& r = (*static_cast<MockT*>(p))(c.v[0], c.loc);
			c.resultAddr = &r;
			c.result = r;
			c.returned = true;
		}
	};
	template <>
	mimicpp::ScopedExpectation* create_with<PortRefRet, LeafInfo{M_ANY, T_DEF, S_NONE, E_A, F_CB, 0, 0}>(void* mock, const CreateCtx& c)
	{
		return new mimicpp::ScopedExpectation(
			static_cast<PortRefRet::MockT*>(mock)->expect_call(mimicpp::matches::_)
				&& mimicpp::then::apply_arg<0>(ArgFx{c.inst, 0})
				&& mimicpp::finally::returns_result_of(FinRef{c.inst}),
			c.loc);
	}
	static constexpr LeafInfo kRefRetLeaves[] = {
		{M_ANY, T_DEF, S_NONE, E_A, F_CB, 0, 0},
		{M_ANY, T_RANGE, S_NONE, E_A, F_REF, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_IAL, F_REF, 1, 0},
		{M_EQ, T_RANGE, S_NONE, E_0, F_THROW, 0, 0},
		{M_PRED, T_DEF, S_G, E_I, F_REF, 0, 0},
	};

	PortOps ops_refret() { return ops<PortRefRet, kRefRetLeaves>(1); }
	std::vector<LeafInfo> leaves_refret() { return vec(kRefRetLeaves); }
#endif
}
