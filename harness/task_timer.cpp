// C10: timers of the manager of stackful tasks.
#define CHAIN 1
#define MGR 1
#define TIMER 1
#include "task_world.h"
const pbt::HarnessInfo pbt::info = {
    "task_timer",
    "a case puts up to 8 stackful tasks with and without timeouts into two managers, changes and clears timeouts and ticks "
    "at, before and after deadlines (to the nanosecond) and backwards; the model predicts which tasks every tick ends, in "
    "which order; non-trivial when a tick ended a task and another timer survived a tick",
    false, 20};
