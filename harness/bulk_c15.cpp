// C15: callables nested deeply, many callables awaited by one.
#define BULK 15
#include "bulk_sl.h"
const pbt::HarnessInfo pbt::info = {
    "bulk_c15",
    "a case nests up to 300 callables and lets the innermost end, kills or drops the outermost; or lets up to 4 readers await up to 300 callables; or one await up to 68000 one after the other; non-trivial with ten objects or more",
    false, 60};
