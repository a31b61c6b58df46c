// C08: many followers and waiters, long chains.
#define BULK 8
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c08",
    "a case lets up to 300 tasks follow or await one task or each other; non-trivial with ten objects or more",
    false, 60};
