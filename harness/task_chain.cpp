// C08: chaining and awaiting between stackful tasks.
#define CHAIN 1
#define MGR 0
#define TIMER 0
#include "task_world.h"
const pbt::HarnessInfo pbt::info = {
    "task_chain",
    "a case creates up to 8 stackful tasks, chains them with next()/then(), lets them await each other, and starts, "
    "resumes, ends and drops them in any order and from any context; the model predicts which follower is entered next and "
    "with which argument; non-trivial when followers ran and a task awaited another one, had several followers, or was "
    "chained onto after its end",
    false, 20};
