// Stateless exploration of real threads: every order of their synchronisation, with detection of data races.
//
// The code under test (library and harness) is compiled with -fsanitize=thread, but linked with the runtime of
// sched_rt.cpp instead of ThreadSanitizer's.  Threads run one at a time.  Before each synchronisation (guard of a
// function-local static, atomic operation on memory more than one thread can reach, mutex, once-flag) the runtime
// picks the next thread, following the schedule the explorer asks for; between them, vector clocks tell whether
// two accesses to one byte, one of them a write, are unordered, which is reported.  Executions without such a pair
// depend on the order of the synchronisations only, so enumerating these orders enumerates all behaviours.
#pragma once
#include <string>
#include <vector>
#include <functional>

namespace sched {

struct Point { unsigned char enabled, chosen, prev, what; };
struct Outcome {
	std::string error;               // race, deadlock, crash
	std::vector<std::string> out;    // what each thread returned
	std::vector<Point> trace;
	unsigned long accesses = 0;
};
typedef std::function<std::string(void*)> Body;
typedef std::function<void*()> Setup;

/// One execution in a forked process, which follows `schedule` as far as it goes.
Outcome execute(const Setup& setup, const std::vector<Body>& bodies, const std::vector<int>& schedule);

} // namespace sched
