// C02: frames of many suspended coroutines.
#define BULK 2
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c02",
    "a case nests up to 60 or interleaves up to 300 coroutines suspended below up to 60 frames each, every frame with canaries; non-trivial with ten objects or more",
    false, 60};
