#pragma once
#include "../sim_stub.hpp"
#define CATCH_FAIL(...) ::sim_stub::fail(::sim_stub::Text{} << __VA_ARGS__)
#define CATCH_SUCCEED(...) ::sim_stub::message(::sim_stub::Text{} << __VA_ARGS__)
#define CATCH_WARN(...) ::sim_stub::message(::sim_stub::Text{} << __VA_ARGS__)
#ifdef CATCH_CONFIG_PREFIX_ALL
	#define CATCH_CONFIG_PREFIX_MESSAGES
#else
#define FAIL CATCH_FAIL
#define SUCCEED CATCH_SUCCEED
#define WARN CATCH_WARN
#endif
