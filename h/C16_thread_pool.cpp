// C16: the thread pool runs every accepted coroutine exactly once, on its threads.
#include "executor.hpp"
const char* const harness_property = "C16";
const char* const harness_rule =
    "a case = a pool of 1-3 threads, 1-3 threads submitting work in every way (schedule, yield, schedule a task, spawn detached / joinable, resume one / a range with null and finished handles), work that yields, leaves the pool and returns, "
    "submits more work, throws or waits to be resumed, an optional shutdown racing it all, and every scheduling decision; non-trivial = two threads ran work, work moved between threads, or something raced the shutdown";
