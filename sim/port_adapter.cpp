// One of the adapters of the test frameworks (real code), connected to a stub of its framework.
#include "stubs/sim_stub.hpp"
#include <mimic++/Reporter.hpp>
#ifndef NO_ADAPTER
	#if PART == 0
		#include <mimic++/adapters/Catch2.hpp>
		using Adapter = mimicpp::Catch2ReporterT;
	#elif PART == 1
		#include <mimic++/adapters/gtest.hpp>
		using Adapter = mimicpp::GTestReporterT;
	#elif PART == 2
		#include <mimic++/adapters/BoostTest.hpp>
		using Adapter = mimicpp::BoostTestReporterT;
	#elif PART == 3
		#include <mimic++/adapters/Doctest.hpp>
		using Adapter = mimicpp::DoctestReporterT;
	#else
		// the configuration with prefixed macros (with names of its own, because it's part of the same program)
		#define CATCH_CONFIG_PREFIX_ALL
		#define catch2 catch2_prefixed
		#define Catch2ReporterT Catch2PrefixedReporterT
		#include <mimic++/adapters/Catch2.hpp>
		using Adapter = mimicpp::Catch2PrefixedReporterT;
	#endif
#endif

#define CAT(a, b) CAT2(a, b)
#define CAT2(a, b) a##b

namespace sim
{
	bool CAT(install_adapter, PART)()
	{
#ifdef NO_ADAPTER
		return false;
#else
		mimicpp::install_reporter<Adapter>();
		return true;
#endif
	}
}
