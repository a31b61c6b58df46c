// C04: memory of many objects.
#define BULK 4
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c04",
    "a case makes, runs and drops up to 300 coroutines and tasks in a generated order, with private buffers and callables that own memory; non-trivial with ten objects or more",
    false, 60};
