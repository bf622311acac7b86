#include "port_int.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
	template void fill_int<PART>(CreateFn*);
}
