// C15: nested callables.
#define P_GEN 4
#define P_CALL 6
#define P_TASK 0
#define P_SOME 1
#define P_NONTRIVIAL (w.n_forced || w.n_detached || w.n_dropped_wait) && w.n_child && w.n_value
#include "sl_world.h"
const pbt::HarnessInfo pbt::info = {
    "sl_call",
    "a case runs scripts in up to 60 callables that await generators, each other and nested callables up to depth 4, with "
    "kills and drops at the top and from inside bodies; non-trivial when callables were nested, a value was delivered and a "
    "kill or drop resumed a suspended callable",
    false, 20};
