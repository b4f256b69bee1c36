// C18: the scheduler runs all accepted work and stops only when none is left.
#define SCHED 1
#include "executor.hpp"
const char* const harness_property = "C18";
const char* const harness_rule =
    "a case = a scheduler with its own event loop thread, running work inline or on 1-3 pool threads, 1-3 threads submitting work in every way (schedule, yield, timed waits, schedule a task, spawn detached / joinable, resume one / a range), "
    "work that yields, waits for a timer, leaves the scheduler and returns, submits more work, throws or waits to be resumed, an optional shutdown racing it all, and every scheduling decision; "
    "non-trivial = two threads ran work or something raced the shutdown";
