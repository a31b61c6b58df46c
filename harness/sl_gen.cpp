// C14: generators.
#define P_GEN 8
#define P_CALL 3
#define P_TASK 1
#define P_SOME 1
#define P_NONTRIVIAL (w.n_multi || w.n_gen_dropped || w.n_forced || w.n_reset) && w.n_value
#include "sl_world.h"
const pbt::HarnessInfo pbt::info = {
    "sl_gen",
    "a case runs scripts in up to 60 stackless coroutines over up to 8 generators (int, movable, void; with recording, "
    "value-setting and no callbacks) with values set, reset, handles copied, moved and dropped at the top and from inside "
    "bodies; non-trivial when a value was delivered and several waiters, a dropped generator, a reset or a killed waiter occurred",
    false, 20};
