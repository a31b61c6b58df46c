// C21: many stackless waiters of stackful tasks.
#define BULK 21
#include "bulk_sl.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c21",
    "a case lets up to 300 callables await up to 60 stackful tasks that run to their end, are killed or cancelled in a generated order; non-trivial with ten objects or more",
    false, 60};
