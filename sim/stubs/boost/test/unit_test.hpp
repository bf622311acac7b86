#pragma once
#include "../../sim_stub.hpp"
#define BOOST_TEST_FAIL(M) ::sim_stub::fail(::sim_stub::Text{} << M)
#define BOOST_FAIL BOOST_TEST_FAIL
#define BOOST_TEST_MESSAGE(M) ::sim_stub::message(::sim_stub::Text{} << M)
