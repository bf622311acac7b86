#pragma once
#include "../sim_stub.hpp"
namespace doctest {}
#define DOCTEST_FAIL(...) ::sim_stub::fail(::sim_stub::Text{} << __VA_ARGS__)
#define DOCTEST_MESSAGE(...) ::sim_stub::message(::sim_stub::Text{} << __VA_ARGS__)
#define DOCTEST_REQUIRE_MESSAGE(cond, ...) ((cond) ? ::sim_stub::message(::sim_stub::Text{} << __VA_ARGS__) : ::sim_stub::fail(::sim_stub::Text{} << __VA_ARGS__))
#define DOCTEST_REQUIRE(cond) ((cond) ? void() : ::sim_stub::fail(::sim_stub::Text{} << #cond))
