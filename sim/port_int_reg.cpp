#include "port_int.hpp"
namespace sim
{
	extern template void fill_int<0>(CreateFn*);
	extern template void fill_int<1>(CreateFn*);
	extern template void fill_int<2>(CreateFn*);
	extern template void fill_int<3>(CreateFn*);
	extern template void fill_int<4>(CreateFn*);
	extern template void fill_int<5>(CreateFn*);

	static const CreateFn* table()
	{
		static CreateFn t[std::size(kIntLeaves)];
		fill_int<0>(t);
		fill_int<1>(t);
		fill_int<2>(t);
		fill_int<3>(t);
		fill_int<4>(t);
		fill_int<5>(t);
		return t;
	}
	PortOps ops_int() { return make_ops<PortInt>(table(), 1); }
	std::vector<LeafInfo> leaves_int() { return {std::begin(kIntLeaves), std::end(kIntLeaves)}; }
}
