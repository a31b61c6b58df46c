// C17: many continuations.
#define BULK 17
#include "bulk_sl.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c17",
    "a case attaches up to 300 continuations in a chain, to one task, or in a tree; everyone must be called once with the result of what it continues; non-trivial with ten objects or more",
    false, 60};
