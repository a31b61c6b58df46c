// C10: timers of stackless tasks.
#define P_GEN 3
#define P_CALL 1
#define P_TASK 6
#define P_SOME 0
#define P_MGR 4
#define P_TICK 6
#define P_NONTRIVIAL w.n_expired && w.n_untouched
#include "sl_world.h"
const pbt::HarnessInfo pbt::info = {
    "sl_timer",
    "a case adds stackless tasks with and without timeouts to managers, changes timeouts and ticks with a generated clock (at, "
    "just before and just after deadlines, backwards, repeatedly); non-trivial when a task expired and another survived a tick "
    "with a timer",
    false, 20};
