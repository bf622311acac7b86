// Ports for overload sets, interface mocks and noexcept signatures.
#include "ports.hpp"

#ifndef PART
#define PART 0
#endif

namespace sim
{
	template <typename P, const auto& table>
	static PortOps ops(int nColl) { return make_ops<P>(make_table<P, table>(), nColl); }
	template <std::size_t n>
	static std::vector<LeafInfo> vec(const LeafInfo (&t)[n]) { return {t, t + n}; }

	// matches only arguments of exactly one type, so that overloads are not ambiguous
	template <typename T>
	struct TypedMatcher
	{
		PredFn fn;
		template <std::same_as<T> U>
		bool matches(const U& v) const { return fn(v); }
		[[nodiscard]] std::string_view describe() const noexcept { return "typed matcher"; }
	};
	template <LeafInfo L, int form, typename T, int index>
	static auto typed(const CreateCtx& c)
	{
		if constexpr (form == M_EQ)
			return matcher<LeafInfo{M_EQ, 0, 0, 0, 0, 0, 0}, M_EQ, T, index>(c);
		else
			return TypedMatcher<T>{{c.inst, index, index == 0 || form == M_ANY ? form : M_PRED}};
	}
	template <LeafInfo L, int form, typename T, int index>
	static decltype(auto) ot(const CreateCtx& c) { return operand<L>(c, typed<L, form, T, index>(c)); }

#if PART == 0
	struct PortRefQ
	{
		static constexpr bool hasArgs = true;
		using MockT = mimicpp::Mock<int(int)&, int(int) const&, int(int)&&, int(int) const&&>;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c)
		{
			if constexpr (L.ep == 0)
				return m.expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 1)
				return std::as_const(m).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 2)
				return std::move(m).expect_call(om<L, L.m, int, 0>(c));
			else
				return std::move(std::as_const(m)).expect_call(om<L, L.m, int, 0>(c));
		}
		static void call(void* p, int ep, CallCtx& c)
		{
			auto& m = *static_cast<MockT*>(p);
			switch (ep)
			{
			case 0: c.result = m(int{c.v[0]}, c.loc); break;
			case 1: c.result = std::as_const(m)(int{c.v[0]}, c.loc); break;
			case 2: c.result = std::move(m)(int{c.v[0]}, c.loc); break;
			default: c.result = std::move(std::as_const(m))(int{c.v[0]}, c.loc); break;
			}
			c.returned = true;
		}
	};
	static constexpr LeafInfo kRefQLeaves[] = {
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 0},
		{M_ANY, T_DEF, S_NONE, E_0, F_CB, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 1},
		{M_ANY, T_DEF, S_NONE, E_0, F_CB, 0, 1},
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 2},
		{M_ANY, T_DEF, S_NONE, E_0, F_CB, 0, 2},
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 3},
		{M_ANY, T_DEF, S_NONE, E_0, F_CB, 0, 3},
		{M_ANY, T_RANGE, S_L, E_0, F_VAL, 0, 0},
		{M_ANY, T_DEF, S_L, E_0, F_VAL, 0, 3},
	};
	PortOps ops_refq() { return ops<PortRefQ, kRefQLeaves>(1); }
	std::vector<LeafInfo> leaves_refq() { return vec(kRefQLeaves); }

#elif PART == 1
	struct PortOvl
	{
		static constexpr bool hasArgs = true;
		using MockT = mimicpp::Mock<int(int), int(int) const, int(const std::string&), void(int&, int)>;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c)
		{
			if constexpr (L.ep == 0)
				return m.expect_call(ot<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 1)
				return std::as_const(m).expect_call(ot<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 2)
				return m.expect_call(ot<L, L.m, std::string, 0>(c));
			else
				return m.expect_call(ot<L, L.m, int, 0>(c), ot<L, L.m, int, 1>(c));
		}
		static void call(void* p, int ep, CallCtx& c)
		{
			auto& m = *static_cast<MockT*>(p);
			switch (ep)
			{
			case 0: c.result = m(int{c.v[0]}, c.loc); break;
			case 1: c.result = std::as_const(m)(int{c.v[0]}, c.loc); break;
			case 2:
			{
				const std::string s = text_of(c.v[0]);
				c.argAddr[0] = &s;
				c.result = m(s, c.loc);
				break;
			}
			default:
				c.argAddr[0] = &c.v[0];
				m(c.v[0], int{c.v[1]}, c.loc);
				break;
			}
			c.returned = true;
		}
	};
	static constexpr LeafInfo kOvlLeaves[] = {
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 0},
		{M_ANY, T_DEF, S_NONE, E_0, F_CB, 1, 0},
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 1},
		{M_ANY, T_DEF, S_NONE, E_0, F_CB, 1, 1},
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 2},
		{M_EQ, T_DEF, S_NONE, E_0, F_CB, 1, 2},
		{M_PRED, T_RANGE, S_NONE, E_IAL, F_VOID, 0, 3},
		{M_ANY, T_DEF, S_NONE, E_A, F_VOID, 1, 3},
		{M_PRED, T_RANGE, S_L, E_0, F_VAL, 0, 0},
		{M_PRED, T_RANGE, S_L, E_0, F_VAL, 0, 2},
	};
	PortOps ops_ovl() { return ops<PortOvl, kOvlLeaves>(3); }
	std::vector<LeafInfo> leaves_ovl() { return vec(kOvlLeaves); }

#elif PART == 2
	struct IFoo
	{
		virtual ~IFoo() = default;
		virtual int foo(int v) = 0;
		virtual int foo(int v) const = 0;
		virtual int foo(const std::string& v) = 0;
		virtual void bar(int& v) = 0;
		virtual int baz(int v, int w) const = 0;
	};
	class FooMock : public IFoo
	{
	public:
		MOCK_OVERLOADED_METHOD(
			foo,
			ADD_OVERLOAD(int, (int)),
			ADD_OVERLOAD(int, (int), const),
			ADD_OVERLOAD(int, (const std::string&)));
		MOCK_METHOD(bar, void, (int&));
		MOCK_METHOD(baz, int, (int, int), const);
	};
	struct PortIface
	{
		static constexpr bool hasArgs = true;
		using MockT = FooMock;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c)
		{
			if constexpr (L.ep == 0)
				return m.foo_.expect_call(ot<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 1)
				return std::as_const(m).foo_.expect_call(ot<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 2)
				return m.foo_.expect_call(ot<L, L.m, std::string, 0>(c));
			else if constexpr (L.ep == 3)
				return m.bar_.expect_call(om<L, L.m, int, 0>(c));
			else
				return m.baz_.expect_call(om<L, L.m, int, 0>(c), om < L, L.m == M_ANY || L.m == M_EQ ? L.m : M_PRED, int, 1 > (c));
		}
		static void call(void* p, int ep, CallCtx& c)
		{
			IFoo& m = *static_cast<MockT*>(p);
			switch (ep)
			{
			case 0: c.result = m.foo(int{c.v[0]}); break;
			case 1: c.result = std::as_const(m).foo(int{c.v[0]}); break;
			case 2:
			{
				const std::string s = text_of(c.v[0]);
				c.argAddr[0] = &s;
				c.result = m.foo(s);
				break;
			}
			case 3:
				c.argAddr[0] = &c.v[0];
				m.bar(c.v[0]);
				break;
			default: c.result = m.baz(int{c.v[0]}, int{c.v[1]}); break;
			}
			c.returned = true;
		}
	};
	static constexpr LeafInfo kIfaceLeaves[] = {
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 0},
		{M_ANY, T_DEF, S_NONE, E_0, F_ARG, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_0, F_VAL, 0, 1},
		{M_ANY, T_DEF, S_NONE, E_A, F_CB, 0, 1},
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 2},
		{M_PRED, T_RANGE, S_NONE, E_IAL, F_VOID, 0, 3},
		{M_ANY, T_DEF, S_NONE, E_A, F_VOID, 0, 3},
		{M_PRED, T_RANGE, S_NONE, E_A, F_ALL, 0, 4},
		{M_EQ, T_DEF, S_L, E_0, F_THROW, 0, 4},
		{M_ANY, T_RANGE, S_L, E_0, F_VOID, 0, 3},
	};
	PortOps ops_iface() { return ops<PortIface, kIfaceLeaves>(5); }
	std::vector<LeafInfo> leaves_iface() { return vec(kIfaceLeaves); }

#elif PART == 4
	// all kinds of methods an interface may declare
	struct IBar
	{
		virtual ~IBar() = default;
		virtual int q(int v) & = 0;
		virtual int q(int v) const& = 0;
		virtual int q(int v) && = 0;
		virtual int q(int v) const&& = 0;
		virtual void none() = 0;
		virtual Payload tri(int v, std::string& s, const Payload& y) const = 0;
		virtual int tri(int v, int w) = 0;
		virtual int take(std::unique_ptr<int> p, Payload&& y) = 0;
	};
	class BarMock final : public IBar
	{
	public:
		MOCK_OVERLOADED_METHOD(
			q,
			ADD_OVERLOAD(int, (int), &),
			ADD_OVERLOAD(int, (int), const&),
			ADD_OVERLOAD(int, (int), &&),
			ADD_OVERLOAD(int, (int), const&&));
		MOCK_METHOD(none, void, ());
		MOCK_OVERLOADED_METHOD(
			tri,
			ADD_OVERLOAD(Payload, (int, std::string&, const Payload&), const),
			ADD_OVERLOAD(int, (int, int)));
		MOCK_METHOD(take, int, (std::unique_ptr<int>, Payload&&));
	};
	struct PortIface2
	{
		using MockT = BarMock;
		template <LeafInfo L>
		static constexpr int nArgs = L.ep < 4 ? 1 : L.ep == 4 ? 0 : L.ep == 5 ? 3 : 2;
		template <LeafInfo L>
		using RetOf = std::conditional_t<L.ep == 5, Payload, int>;

		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c)
		{
			constexpr int f = L.m == M_ANY || L.m == M_EQ ? L.m : M_PRED;
			if constexpr (L.ep == 0)
				return m.q_.expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 1)
				return std::as_const(m.q_).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 2)
				return std::move(m.q_).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 3)
				return std::move(std::as_const(m.q_)).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 4)
				return m.none_.expect_call();
			else if constexpr (L.ep == 5)
				return std::as_const(m.tri_).expect_call(om<L, L.m, int, 0>(c), om<L, f, std::string, 1>(c), om<L, f, Payload, 2>(c));
			else if constexpr (L.ep == 6)
				return m.tri_.expect_call(om<L, L.m, int, 0>(c), om<L, f, int, 1>(c));
			else
				return m.take_.expect_call(om<L, L.m, std::unique_ptr<int>, 0>(c), om<L, f, Payload, 1>(c));
		}
		static void call(void* p, int ep, CallCtx& c)
		{
			IBar& m = *static_cast<MockT*>(p);
			switch (ep)
			{
			case 0: c.result = m.q(int{c.v[0]}); break;
			case 1: c.result = std::as_const(m).q(int{c.v[0]}); break;
			case 2: c.result = std::move(m).q(int{c.v[0]}); break;
			case 3: c.result = std::move(std::as_const(m)).q(int{c.v[0]}); break;
			case 4: m.none(); break;
			case 5:
			{
				std::string s = text_of(c.v[1]);
				const Payload y{c.v[2]};
				c.argAddr[1] = &s;
				c.argAddr[2] = &y;
				struct Out
				{
					CallCtx& c;
					std::string& s;
					~Out() { c.v[1] = to_int(s); }
				} const out{c, s};
				const Payload r = m.tri(int{c.v[0]}, s, y);
				c.result = r.get();
				break;
			}
			case 6: c.result = m.tri(int{c.v[0]}, int{c.v[1]}); break;
			default:
			{
				Payload y{c.v[1]};
				c.argAddr[1] = &y;
				struct Out
				{
					CallCtx& c;
					Payload& y;
					~Out() { c.v[1] = y.get(); }
				} const out{c, y};
				c.result = m.take(std::make_unique<int>(c.v[0]), std::move(y));
				break;
			}
			}
			c.returned = true;
		}
	};
	static constexpr LeafInfo kIface2Leaves[] = {
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_0, F_CB, 0, 1},
		{M_PRED, T_RANGE, S_NONE, E_A, F_VAL, 0, 2},
		{M_EQ, T_RANGE, S_NONE, E_0, F_ALL, 1, 2},
		{M_PRED, T_RANGE, S_NONE, E_0, F_VAL, 0, 3},
		{M_ANY, T_RANGE, S_NONE, E_I, F_VOID, 0, 4},
		{M_PRED, T_RANGE, S_NONE, E_IAL, F_VAL, 0, 5},
		{M_PRED, T_RANGE, S_NONE, E_P, F_ALL, 0, 6},
		{M_EQ, T_DEF, S_L, E_0, F_CB, 1, 6},
		{M_PRED, T_RANGE, S_NONE, E_R, F_PERM, 1, 7},
		{M_ANY, T_DEF, S_L, E_0, F_VAL, 0, 2},
	};
	PortOps ops_iface2() { return ops<PortIface2, kIface2Leaves>(5); }
	std::vector<LeafInfo> leaves_iface2() { return vec(kIface2Leaves); }

#else
	struct INoex
	{
		virtual ~INoex() = default;
		virtual int iq(int v) & noexcept = 0;
		virtual int iq(int v) const& noexcept = 0;
		virtual int iq(int v) && noexcept = 0;
		virtual int iq(int v) const&& noexcept = 0;
		virtual int in(int v) noexcept = 0;
		virtual int in(int v) const noexcept = 0;
	};
	struct NoexMocks : public INoex
	{
		MOCK_OVERLOADED_METHOD(
			iq,
			ADD_OVERLOAD(int, (int), & noexcept),
			ADD_OVERLOAD(int, (int), const& noexcept),
			ADD_OVERLOAD(int, (int), && noexcept),
			ADD_OVERLOAD(int, (int), const&& noexcept));
		MOCK_OVERLOADED_METHOD(
			in,
			ADD_OVERLOAD(int, (int), noexcept),
			ADD_OVERLOAD(int, (int), const noexcept));
		mimicpp::Mock<int(int) & noexcept, int(int) const & noexcept, int(int) && noexcept, int(int) const && noexcept> q{};
		mimicpp::Mock<int(int) noexcept, int(int) const noexcept> n{};
	};
	struct PortNoex
	{
		static constexpr bool hasArgs = true;
		using MockT = NoexMocks;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c)
		{
			if constexpr (L.ep == 0)
				return m.q.expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 1)
				return std::as_const(m.q).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 2)
				return std::move(m.q).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 3)
				return std::move(std::as_const(m.q)).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 4)
				return m.n.expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 5)
				return std::as_const(m.n).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 6)
				return m.iq_.expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 7)
				return std::as_const(m.iq_).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 8)
				return std::move(m.iq_).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 9)
				return std::move(std::as_const(m.iq_)).expect_call(om<L, L.m, int, 0>(c));
			else if constexpr (L.ep == 10)
				return m.in_.expect_call(om<L, L.m, int, 0>(c));
			else
				return std::as_const(m.in_).expect_call(om<L, L.m, int, 0>(c));
		}
		static void call(void* p, int ep, CallCtx& c)
		{
			auto& m = *static_cast<MockT*>(p);
			INoex& i = m;
			switch (ep)
			{
			case 0: c.result = m.q(int{c.v[0]}, c.loc); break;
			case 1: c.result = std::as_const(m.q)(int{c.v[0]}, c.loc); break;
			case 2: c.result = std::move(m.q)(int{c.v[0]}, c.loc); break;
			case 3: c.result = std::move(std::as_const(m.q))(int{c.v[0]}, c.loc); break;
			case 4: c.result = m.n(int{c.v[0]}, c.loc); break;
			case 5: c.result = std::as_const(m.n)(int{c.v[0]}, c.loc); break;
			case 6: c.result = i.iq(int{c.v[0]}); break;
			case 7: c.result = std::as_const(i).iq(int{c.v[0]}); break;
			case 8: c.result = std::move(i).iq(int{c.v[0]}); break;
			case 9: c.result = std::move(std::as_const(i)).iq(int{c.v[0]}); break;
			case 10: c.result = i.in(int{c.v[0]}); break;
			default: c.result = std::as_const(i).in(int{c.v[0]}); break;
			}
			c.returned = true;
		}
	};
	// the first 12 leaves are the base expectations
	static constexpr LeafInfo kNoexLeaves[] = {
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 0},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 1},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 2},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 3},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 4},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 5},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 6},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 7},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 8},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 9},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 10},
		{M_ANY, T_ATLEAST, S_NONE, E_0, F_VAL, 0, 11},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 0},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 1},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 2},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 3},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 4},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 5},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 6},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 7},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 8},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 9},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 10},
		{M_LT, T_RANGE, S_NONE, E_A, F_VAL, 0, 11},
	};
	PortOps ops_noex() { return ops<PortNoex, kNoexLeaves>(4); }
	std::vector<LeafInfo> leaves_noex() { return vec(kNoexLeaves); }
#endif
}
