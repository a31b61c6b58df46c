// C18: long lists.
#define BULK 18
#include "bulk_sl.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c18",
    "a case waits with some(), any() and all() for lists of up to 300 generators, callables or tasks that end in a generated order; every one must end exactly when its threshold is reached; non-trivial with ten objects or more",
    false, 60};
