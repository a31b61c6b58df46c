// C16: many tasks, many readers, many handles.
#define BULK 16
#include "bulk_sl.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c16",
    "a case starts, kills, copies (up to 67000 handles) and drops up to 300 tasks that up to 600 coroutines await, all of them the same one in half of the cases; non-trivial with ten objects or more",
    false, 60};
