// C11: managers of stackless tasks.
#define P_GEN 3
#define P_CALL 2
#define P_TASK 6
#define P_SOME 0
#define P_MGR 5
#define P_NONTRIVIAL w.n_added && (w.n_left || w.n_mgr_reset || w.n_silent || w.n_expired || w.n_mgr_nested)
#include "sl_world.h"
const pbt::HarnessInfo pbt::info = {
    "sl_mgr",
    "a case runs scripts in up to 60 stackless coroutines, tasks mostly, and adds them to two managers, starts, cancels, kills and "
    "removes them by id, ticks, resets and destroys managers, at the top and from inside bodies; non-trivial when a task was added "
    "and one left at its end, was ended by a reset or a tick, or a body used a manager",
    false, 20};
