// C09: managers with many tasks.
#define BULK 9
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c09",
    "a case starts, resumes, kills, cancels, removes and adds again up to 300 tasks of one manager by their ids, then resets or destroys it; non-trivial with ten objects or more",
    false, 60};
