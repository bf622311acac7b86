// A port with several arguments of different types, and with values which notice to be moved from.
#include "ports.hpp"

#ifndef PART
#define PART 0
#endif

namespace sim
{
	struct PortWide
	{
		using Ret = Payload;
		using MockT = mimicpp::Mock<
			Payload(int, std::string&, const Payload&),
			Payload&(Payload&, int, Payload&&) const,
			std::unique_ptr<int>(std::unique_ptr<int>, const std::string&)>;
		template <LeafInfo L>
		static constexpr int nArgs = L.ep == 2 ? 2 : 3;

		// the type of the matcher decides the overload
		template <LeafInfo L, int index, typename T>
		struct Typed
		{
			OwnMatcher m;
			template <std::same_as<T> U>
			bool matches(const U& v) const { return m.matches(v); }
			[[nodiscard]] std::string_view describe() const noexcept { return "typed matcher"; }
		};
		template <LeafInfo L, int index, typename T>
		static decltype(auto) m(const CreateCtx& c)
		{
			constexpr int form = index == 0 || L.m == M_ANY || L.m == M_EQ ? L.m : M_PRED;
			if constexpr (form == M_EQ || form == M_LT || form == M_NE)
				return om<L, form, T, index>(c);
			else
				return operand<L>(c, Typed<L, index, T>{{{c.inst, index, form}}});
		}
		struct Half	// a projection
		{
			template <typename T>
			const T& operator()(const T& v) const { return v; }
		};

		template <LeafInfo L>
		static auto expect(MockT& mock, const CreateCtx& c)
		{
			namespace e = mimicpp::expect;
			if constexpr (L.ep == 0)
			{
				auto b = mock.expect_call(m<L, 0, int>(c), m<L, 1, std::string>(c), Typed<L, 2, Payload>{{{c.inst, 2, M_ANY}}});
				if constexpr (L.m == M_ANY)
					return b;
				else if constexpr (L.x == 0)
					return std::move(b) && e::arg<2>(m<L, 2, Payload>(c));
				else
					return std::move(b) && e::arg<2>(m<L, 2, Payload>(c), Half{}) && e::arg<0>(mimicpp::matches::_);
			}
			else if constexpr (L.ep == 1)
			{
				auto b = std::as_const(mock).expect_call(m<L, 0, Payload>(c), m<L, 1, int>(c), m<L, 2, Payload>(c));
				if constexpr (L.x == 0)
					return b;
				else
					return std::move(b) && e::arg<1>(mimicpp::matches::ge(-10)) && e::arg<0>(m<L, 0, Payload>(c), Half{});
			}
			else
				return mock.expect_call(m<L, 0, std::unique_ptr<int>>(c), m<L, 1, std::string>(c));
		}
		static void call(void* p, int ep, CallCtx& c)
		{
			auto& mock = *static_cast<MockT*>(p);
			switch (ep)
			{
			case 0:
			{
				std::string s = text_of(c.v[1]);
				const Payload y{c.v[2]};
				c.argAddr[1] = &s;
				c.argAddr[2] = &y;
				struct Out
				{
					CallCtx& c;
					std::string& s;
					~Out() { c.v[1] = to_int(s); }
				} const out{c, s};
				const Payload r = mock(int{c.v[0]}, s, y, c.loc);
				c.result = r.get();
				break;
			}
			case 1:
			{
				Payload y{c.v[0]}, z{c.v[2]};
				c.argAddr[0] = &y;
				c.argAddr[2] = &z;
				struct Out
				{
					CallCtx& c;
					Payload &y, &z;
					~Out() { c.v[0] = y.get(), c.v[2] = z.get(); }
				} const out{c, y, z};
				Payload& r = std::as_const(mock)(y, int{c.v[1]}, std::move(z), c.loc);
				c.resultAddr = &r;
				c.result = r.get();
				break;
			}
			default:
			{
				const std::string s = text_of(c.v[1]);
				c.argAddr[1] = &s;
				const std::unique_ptr<int> r = mock(std::make_unique<int>(c.v[0]), s, c.loc);
				c.result = to_int(r);
				break;
			}
			}
			c.returned = true;
		}
	};
	inline constexpr LeafInfo kWideLeaves[] = {
		{M_ANY, T_RANGE, S_NONE, E_P, F_VAL, 0, 0},
		{M_PRED, T_RANGE, S_NONE, E_R, F_PERM, 0, 0},
		{M_PRED, T_ATLEAST, S_NONE, E_P, F_ALL, 1, 0, 1},
		{M_EQ, T_RANGE, S_NONE, E_R, F_ARG2, 0, 0},
		{M_LT, T_RANGE, S_NONE, E_IAL, F_THROW, 2, 0, 1},
		{M_PRED, T_ATMOST, S_L, E_P, F_VAL, 2, 0},
		{M_ANY, T_RANGE, S_NONE, E_R, F_ARG, 0, 1},
		{M_PRED, T_RANGE, S_NONE, E_P, F_ARG, 1, 1, 1},
		{M_PRED, T_DEF, S_NONE, E_IAL, F_THROW, 0, 1},
		{M_ANY, T_RANGE, S_L, E_P, F_ARG, 0, 1},
		{M_ANY, T_RANGE, S_NONE, E_A, F_ARG, 0, 2},
		{M_PRED, T_RANGE, S_NONE, E_IAL, F_ARG, 1, 2},
		{M_PRED, T_DEF, S_NONE, E_R, F_THROW, 2, 2},
	};
	constexpr std::size_t kWideSplit = 6;

#if PART == 0
	void fill_wide0(CreateFn* out) { fill<PortWide, kWideLeaves, 0, kWideSplit>(out); }
#else
	void fill_wide0(CreateFn* out);
	PortOps ops_wide()
	{
		static CreateFn t[std::size(kWideLeaves)];
		fill_wide0(t);
		fill<PortWide, kWideLeaves, kWideSplit, std::size(kWideLeaves) - kWideSplit>(t);
		return make_ops<PortWide>(t, 3);
	}
	std::vector<LeafInfo> leaves_wide() { return {std::begin(kWideLeaves), std::end(kWideLeaves)}; }
#endif
}
