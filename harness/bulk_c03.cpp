// C03: exceptions over many levels and followers.
#define BULK 3
#include "bulk_co.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c03",
    "a case throws through up to 60 nested coroutines that pass on, replace, store or swallow exceptions, or from up to 300 tasks that follow each other, whose exceptions must all be reported by the call that entered the first; non-trivial with ten objects or more",
    false, 60};
