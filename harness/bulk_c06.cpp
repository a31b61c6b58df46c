// C06: pools with many stacks.
#define BULK 6
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c06",
    "a case takes and gives back up to 300 stacks of one pool in phases, with limits and collections; numbers and bytes are compared with the stacks outstanding at the allocator; non-trivial with ten objects or more",
    false, 60};
