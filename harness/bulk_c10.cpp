// C10: managers with many timers.
#define BULK 10
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c10",
    "a case gives up to 300 tasks of one manager deadlines and ticks it to them and one nanosecond beyond; non-trivial with ten objects or more",
    false, 60};
