// Stands in for the test frameworks the adapters report to: every message goes to the simulator.
#pragma once
#include <sstream>
#include <string>

namespace sim_stub
{
	void message(const char* text, unsigned long size);
	[[noreturn]] void fail(const char* text, unsigned long size);			// the test is aborted by an exception of the framework
	void fail_and_continue(const char* text, unsigned long size);	// recorded, but the control flow continues

	struct Text
	{
		std::string text;
		template <typename T>
		Text&& operator<<(const T& v) &&
		{
			if constexpr (requires { std::string_view{v}; })
				text += std::string_view{v};
			else
			{
				std::ostringstream s;
				s << v;
				text += s.str();
			}
			return static_cast<Text&&>(*this);
		}
	};
	inline void message(const Text& t) { message(t.text.data(), t.text.size()); }
	[[noreturn]] inline void fail(const Text& t) { fail(t.text.data(), t.text.size()); }
	struct Message
	{
		void operator=(const Text& t) const { message(t); }
	};
	struct Failure
	{
		void operator=(const Text& t) const { fail_and_continue(t.text.data(), t.text.size()); }
	};
}
