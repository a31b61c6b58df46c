// C07: life cycle of stackful tasks.
#define CHAIN 0
#define MGR 0
#define TIMER 0
#include "task_world.h"
const pbt::HarnessInfo pbt::info = {
    "task_life",
    "a case creates up to 8 stackful tasks from actions, functors, functions and methods, and starts, resumes, suspends, "
    "cancels, kills and drops them from outside, from each other's bodies and from completion callbacks, comparing status, "
    "result, callbacks and references with a model after every step; non-trivial when an operation was refused and tasks "
    "were nested or ended by force",
    false, 20};
