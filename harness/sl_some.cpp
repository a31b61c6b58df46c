// C18: some, any and all.
#define P_GEN 3
#define P_CALL 2
#define P_TASK 3
#define P_SOME 6
#define P_NONTRIVIAL w.n_some_wait && w.n_value
#include "sl_world.h"
const pbt::HarnessInfo pbt::info = {
    "sl_some",
    "a case waits for some, any or all of lists of up to 4 generators, tasks or callables (by reference wrappers or spans of "
    "pointers, at the top and inside bodies) while they complete, are killed and dropped; non-trivial when a some() had to "
    "wait and a value was delivered",
    false, 20};
