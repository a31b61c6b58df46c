// C11: managers with many stackless tasks.
#define BULK 11
#include "bulk_sl.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c11",
    "a case starts, kills, cancels, removes and expires up to 300 stackless tasks of one manager by their ids, then resets or destroys it; non-trivial with ten objects or more",
    false, 60};
