// C21: stackless coroutines waiting for stackful tasks.
#define P_GEN 1
#define P_CALL 3
#define P_TASK 2
#define P_SOME 0
#define P_SF 6
#define P_NONTRIVIAL w.n_sf_woken && (w.n_sf_killed || w.n_sf_multi || w.n_sf_left || w.n_sf_gone || w.n_sf_nested)
#include "sl_world.h"
const pbt::HarnessInfo pbt::info = {
    "bridge",
    "a case runs scripts in up to 60 stackless coroutines and 8 stackful tasks: the former await the latter by pointer, by a handle "
    "they keep and by a temporary, both start, resume, cancel, kill, expire, drop and chain each other, at the top and from inside "
    "bodies of either kind; non-trivial when a waiter was woken by a stackful task and a task was killed, had several waiters, was "
    "left by a waiter, dropped while awaited, or used from inside a body",
    false, 20};
