// A cooperative scheduler and race detector for code compiled with
// -fsanitize=thread: sched.cpp provides the functions the compiler calls for
// every memory access, atomic operation, guard and lock.  Threads are fibers of
// one OS thread; who goes on at an atomic operation or lock is an mc::choose().
#pragma once

#include "mc.hpp"

#include <functional>
#include <vector>

namespace sched {

/** to be called before anything that is to be accounted for */
void init();

/** Run the functions as threads, from here to the end of all of them, in every
 *  order of their atomic operations with at most so many preemptions (negative: without a bound).
 *  Fails on a data race, a use after free, a double free or a deadlock. */
void run(const std::vector<std::function<void()>>& threads, int preemptions);

/** objects alive; not subject to the race detector */
void alive(int delta);
int alive();

/** allocations made to initialise what lives as long as the program */
std::int64_t static_allocs();

/** atomic operations and accesses seen in this execution */
struct stats_t
{
    std::uint64_t accesses = 0, atomics = 0, switches = 0;
};
stats_t stats();

} // namespace sched
