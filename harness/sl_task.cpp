// C16: stackless tasks.
#define P_GEN 3
#define P_CALL 2
#define P_TASK 6
#define P_SOME 1
#define P_NONTRIVIAL (w.n_forced || w.n_dropped_wait || w.n_unstarted || w.n_multi) && w.n_value && w.n_copy
#include "sl_world.h"
const pbt::HarnessInfo pbt::info = {
    "sl_task",
    "a case creates, starts, kills, cancels, copies, moves, assigns and drops handles of stackless tasks whose scripts await "
    "generators, tasks and callables, at the top and from inside bodies; non-trivial when handles were copied, a value was "
    "delivered and a task was ended by a kill or drop, or woke several waiters",
    false, 20};
