// C09: the manager of stackful tasks.
#define CHAIN 1
#define MGR 1
#define TIMER 0
#include "task_world.h"
const pbt::HarnessInfo pbt::info = {
    "task_mgr",
    "a case puts up to 8 stackful tasks into two managers and adds, finds, starts, resumes, cancels, kills, removes by id, "
    "ticks, resets and destroys, from outside and from inside task bodies and completion callbacks; membership, sizes and "
    "results are compared with a model after every step; non-trivial when several tasks were added, one was operated by "
    "id or left by itself, and one request was refused or not found",
    false, 20};
