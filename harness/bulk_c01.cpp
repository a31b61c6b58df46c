// C01: nested coroutines, coroutines side by side, long lives.
#define BULK 1
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c01",
    "a case nests up to 60 coroutines, interleaves up to 300 of them in a generated order, or gives one up to 70000 steps and as many handles; every entry must take exactly one step of the entered one with its argument; non-trivial with ten objects or more",
    false, 60};
