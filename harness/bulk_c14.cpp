// C14: many waiters of generators, long lives.
#define BULK 14
#include "bulk_sl.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c14",
    "a case lets up to 300 callables and tasks wait for 1 to 300 generators, kills or drops some of them, sets or drops the generators in a generated order; or sets and resets one generator again and again under up to 68000 handles; non-trivial with ten objects or more",
    false, 60};
