// C09, C10 with threads: the world of managers of C20 by itself.
#define VP_WORLD 3
#include "threads.cpp"
const pbt::HarnessInfo pbt::info = {
    "threads_mgr",
    "a case is a set of threads with generated lists of operations on the tasks of one manager, and (in the controlled build) a generated list of "
    "preemptions; non-trivial when two threads worked on the same object and at least one entry was refused, or an object "
    "was entered by two threads one after the other",
#ifdef VP_SCHED
    false,
#else
    true,
#endif
    40};
