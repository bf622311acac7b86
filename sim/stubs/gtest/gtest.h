#pragma once
#include "../sim_stub.hpp"
#include <functional>
#define GTEST_FAIL() return ::sim_stub::Failure{} = ::sim_stub::Text{}
#define ADD_FAILURE() ::sim_stub::Failure{} = ::sim_stub::Text{}
#define GTEST_SUCCEED() ::sim_stub::Message{} = ::sim_stub::Text{}
#define FAIL GTEST_FAIL
#define SUCCEED GTEST_SUCCEED
