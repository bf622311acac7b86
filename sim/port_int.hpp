#pragma once
#include "ports.hpp"
namespace sim
{
	struct PortInt
	{
		static constexpr bool hasArgs = true;
		using MockT = mimicpp::Mock<int(int)>;
		template <LeafInfo L>
		static auto expect(MockT& m, const CreateCtx& c)
		{
			if constexpr (own_policy(L))
			{
				std::string text = "arg[0] own requirement ";
				for (const char ch : text_of(match_a(*c.op, 0)))
					text.push_back(ch == 's' ? ' ' : ch);
				return m.expect_call(mimicpp::matches::_) && OwnRequirement{PredFn{c.inst, 0, L.m}, "expect: " + text};
			}
			else
				return m.expect_call(om<L, L.m, int, 0>(c));
		}
		static void call(void* p, int, CallCtx& c)
		{
			auto& m = *static_cast<MockT*>(p);
			c.result = m(int{c.v[0]}, c.loc);
			c.returned = true;
		}
	};
	inline constexpr LeafInfo kIntLeaves[] = {
#include "leaves_int.inc"
	};
	constexpr std::size_t kIntPart = 16;
	template <std::size_t part>
	void fill_int(CreateFn* out)
	{
		constexpr std::size_t begin = part * kIntPart;
		constexpr std::size_t end = begin + kIntPart < std::size(kIntLeaves) ? begin + kIntPart : std::size(kIntLeaves);
		fill<PortInt, kIntLeaves, begin, end - begin>(out);
	}
}
