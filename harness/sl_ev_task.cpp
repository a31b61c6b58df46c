// C16: tasks (and callables) that wait for events the library does not know.
#define EV_TASK 7
#include "sl_event.h"
const pbt::HarnessInfo pbt::info = {
    "sl_ev_task",
    "a case runs scripts in up to 40 tasks and callables that wait for events of the program's own, for each other and for nested "
    "callables up to depth 4, with events, kills (also by force) and drops at the top and events from inside bodies; "
    "non-trivial when callables were nested, a value was delivered, an event fired and a coroutine was killed or dropped "
    "while suspended",
    false, 20};
