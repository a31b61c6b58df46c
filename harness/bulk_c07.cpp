// C07: many tasks, many handles, many yields on the way out.
#define BULK 7
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c07",
    "a case runs, kills, cancels and drops up to 300 tasks with up to 300 yields on the way out of a kill, and copies a handle up to 65550 times; non-trivial with ten objects or more",
    false, 60};
