#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


CO = "src/libcopp/coroutine/coroutine_context.cpp"
COH = "include/libcopp/coroutine/coroutine_context.h"
CC = "include/libcopp/coroutine/coroutine_context_container.h"
TASK = "include/libcotask/task.h"
TI = "src/libcotask/impl/task_impl.cpp"
TM = "include/libcotask/task_manager.h"
TP = "include/libcotask/task_promise.h"
SC = "include/libcopp/coroutine/std_coroutine_common.h"
SCC = "src/libcopp/coroutine/std_coroutine_common.cpp"

prop("C01", "A stackful coroutine follows its state machine and carries its payloads",
     "Starting or resuming a coroutine succeeds exactly when it has a runner and is neither running nor finished, and is otherwise refused with the error code of its state and without side effect; yielding succeeds only from inside a running coroutine and hands control back to whoever entered it last. The pointer given to the first entry reaches the runner and every later one is returned by the matching yield, the current-coroutine query names the coroutine that is executing (none outside), and the return code, finished state and user flags are the ones the run produced, for any nesting of coroutines entering each other.",
     ["programs", "histories"], "every program of start/resume/yield/return/set-runner/flag operations over any number of coroutines that enter one another",
     "The tests run a handful of fixed two- and three-coroutine scripts; the guarantee is over every interleaving of entries, yields and rejected operations.",
     [CO, COH, CC, "include/libcopp/coroutine/coroutine_context_base.h"],
     [("status transition on entry and on yield", CO + " coroutine_context::start, yield"), ("caller/callee bookkeeping at a switch", CO + " jump_to")],
     ["return codes of start/resume/yield", "this_coroutine::get_coroutine", "is_finished, get_ret_code, get_private_buffer"])

prop("C02", "Switching contexts preserves stacks, locals and callee-saved registers",
     "Across any sequence of switches every coroutine and the thread that drives it find their local variables, callee-saved registers and stack contents exactly as they left them, whatever other coroutines did meanwhile and however deep their call chains were. Every coroutine's frames lie inside the stack it was created with, properly aligned, and on no other coroutine's stack, and a coroutine suspended on one thread can be resumed on another. Where the build preserves the floating point environment, a new context begins with its maker's control words.",
     ["programs", "inputs", "configurations"], "every switch sequence, call depth, stack size and register content, in both build options of the switch (floating point environment preserved or not)",
     "Tests check a few locals in fixed scripts; register clobbers or off-by-16 stack layouts only show with particular live values, depths and orders.",
     ["src/libcopp/fcontext/asm/jump_x86_64_sysv_elf_gas.S", "src/libcopp/fcontext/asm/make_x86_64_sysv_elf_gas.S", CO],
     [("register save/restore", "jump_x86_64_sysv_elf_gas.S"), ("entry frame construction", "make_x86_64_sysv_elf_gas.S"), ("stack top computation", CO + " coroutine_context::create")],
     ["locals, registers and stack canaries inside coroutine bodies"])

prop("C03", "An exception leaving a coroutine or task surfaces exactly once at its resumer",
     "An exception that leaves the body of a stackful coroutine or task is delivered once, with its value intact, to the call that entered that coroutine - thrown, or stored when the caller passed an exception slot - and nowhere else; the coroutine or task is finished afterwards and can neither be entered again nor deliver the exception a second time. Exceptions of different coroutines, also nested ones that are handled half way, never mix, and every thrown object is destroyed exactly once.",
     ["programs", "fault_sequences"], "every placement of throwing bodies in a tree of nested coroutines and tasks, entered through every start/resume/kill/cancel form",
     "Tests cover one exception in one coroutine; nested propagation, repeated entry after an exception and exceptions during kill are not sampled.",
     [CO, TASK, TI, "include/libcopp/coroutine/coroutine_context_base.h"],
     [("capture in the entry function", CO + " coroutine_context_callback"), ("rethrow at the resumer", "coroutine_context_base.h maybe_rethrow; task.h start/resume")],
     ["exceptions caught at start/resume", "instance counts of the thrown type"])

prop("C04", "A coroutine's memory is laid out disjointly and released exactly once",
     "Creating a coroutine or task either fails cleanly - no object, nothing leaked, allocator usable - when the stack allocation fails or is too small for the object and its private buffer, or yields an object whose private buffer is at least as large as requested, inside the allocated stack, aligned, and disjoint from the object and its frames. The stack, the stored callable and the action object are released exactly once when the last reference goes away, in whatever state the coroutine is and whichever thread drops it, and never earlier.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all combinations of stack size, private buffer size, extra size, allocator, allocation failure and order of reference drops",
     "Tests use a few sizes and never fail an allocation; layout errors need unusual size/alignment combinations.",
     [CC, CO, TASK, "include/libcopp/utils/intrusive_ptr.h"],
     [("layout computation", CC + " create; " + CO + " create"), ("last-reference release", CC + " intrusive_ptr_release; task.h intrusive_ptr_release")],
     ["addresses and sizes of object, private buffer and stack", "allocator call log"])

prop("C05", "Stack allocators hand out exclusive, usable, bounded memory",
     "Every stack handed out is at least as large as requested (raised to the minimum, capped at the platform maximum, rounded to pages), fully writable, overlaps no other outstanding stack, and ends where the returned stack pointer says; mapped stacks are followed at their low end by an inaccessible guard page. Releasing returns exactly that memory, failures are reported by a null stack pointer, and an allocator over user memory hands out its buffer to one user at a time and never reaches outside it.",
     ["inputs", "histories", "fault_sequences"], "every sequence of allocate/release/attach/copy/move over all allocators, any requested sizes, with injected mapping failures",
     "Tests allocate one or two stacks per allocator with round sizes.",
     ["src/libcopp/stack/allocator/stack_allocator_posix.cpp", "src/libcopp/stack/allocator/stack_allocator_malloc.cpp", "src/libcopp/stack/allocator/stack_allocator_memory.cpp", "src/libcopp/stack/stack_traits/stack_traits_posix.cpp", "src/libcopp/stack/stack_context.cpp"],
     [("size rounding", "stack_traits_posix.cpp round_to_page_size"), ("guard page", "stack_allocator_posix.cpp mprotect"), ("single use flag", "stack_allocator_memory.cpp is_used_")],
     ["returned stack descriptors", "mmap/munmap/mprotect log"])

prop("C06", "The stack pool reuses, limits and accounts for stacks exactly",
     "The pool's used/free counters always equal the number and bytes of stacks handed out and cached; it refuses an allocation exactly when a configured maximum would be exceeded, hands out no stack twice at a time and none smaller than the configured size, and reuses a cached one before asking its allocator. Cleaning up, changing the stack size and destroying the pool give every cached stack back to the allocator exactly once and never touch one in use, also when threads use the pool concurrently.",
     ["histories", "schedules", "configurations"], "every sequence of allocate/release/gc/clear/reconfigure operations, from any number of threads",
     "Tests run one fixed sequence with one configuration; counter drift and double release need reconfiguration while stacks are cached or in use.",
     ["include/libcopp/stack/stack_pool.h", "include/libcopp/stack/allocator/stack_allocator_pool.h"],
     [("limit check and reuse", "stack_pool.h allocate"), ("cache decision and automatic clean-up", "stack_pool.h deallocate, gc, clear")],
     ["get_limit()", "call log of the underlying allocator"])

prop("C07", "A stackful task follows its lifecycle and completes exactly once",
     "A task's status is always the one its history implies (created, running, waiting, done, or the terminal status it was cancelled, killed or timed out with), every operation that does not fit the status is refused with an error and has no effect, and a task that reached a terminal status keeps that status. Each started task runs its body to the end exactly once, its completion callback runs exactly once when it ends for whatever reason, it is completed when its last reference goes away, and its result code is the body's return value.",
     ["histories", "programs"], "every sequence of start/resume/yield/cancel/kill/reference operations on any number of tasks, from outside and from inside task bodies",
     "Tests cover single transitions; double completion or lost completion needs combinations such as kill while running followed by yield, resume and a second kill.",
     [TASK, TI, "include/libcotask/impl/task_impl.h", "include/libcotask/task_actions.h"],
     [("status compare-and-swap", "task.h start, resume, yield, cancel, kill"), ("completion notification", "task.h _notify_finished; task_impl.cpp")],
     ["get_status and the is_* queries", "return codes", "on_finished and body call counts"])

prop("C08", "Task chaining wakes every follower exactly once, after its predecessor ended",
     "A task registered to run after another one is started (or resumed, when it was waiting) exactly once, after that predecessor reached a terminal status (or was dropped without ever being started) and never before, in registration order, with the argument it was registered with; chaining onto an already finished task runs the follower at once. A task that awaits another one continues only after the awaited task has ended or the waiter itself is being stopped, spurious resumes notwithstanding, and misuse (awaiting itself, nothing, an ended task, or from outside the waiting task) is refused with its error code.",
     ["programs", "histories"], "every graph of next/then/await relations over tasks that return, are cancelled, killed or dropped in any order",
     "Tests use chains of two or three tasks that all finish normally.",
     [TASK, TI, "include/libcotask/impl/task_impl.h"],
     [("follower list", "task.h next, then, active_next_tasks"), ("await loop", "task.h await_task")],
     ["order of task body starts and continuations", "return codes"])

prop("C09", "The stackful task manager tracks exactly the live tasks it was given",
     "At every moment the manager contains exactly the tasks that were added and have neither finished, been removed nor been swept away by a reset; lookup, start, resume, cancel and kill by id act on that task, or report not-found without effect, and adding is refused with the proper code for duplicates, ending tasks and tasks owned by another manager. Resetting or destroying a manager ends every contained task, a finished task leaves the manager by itself, and no task reaches into a manager it no longer belongs to.",
     ["histories", "programs"], "every sequence of manager and task operations, including ones issued from inside running tasks and completion callbacks, over several managers",
     "Tests check single operations on an idle manager; re-entrant operations during tick, reset and completion are where bookkeeping can break.",
     [TM, TASK, TI], [("container and id index", "task_manager.h add_task, remove_task, find_task"), ("self-removal on completion", "task.h _notify_finished / finish callback")],
     ["find_task, get_task_size, get_container", "task status"])

prop("C10", "Task timers fire once, on time, and never early",
     "A task with a timeout is ended with the timeout status by the first tick that is past its deadline - the time of the last tick when the timeout was set, plus the timeout - and is untouched by every earlier tick; a task without a timeout is never ended by ticks. Changing or clearing a timeout and removing or finishing the task cancel the old deadline, tasks expire in deadline order, time never runs backwards for a manager, and the number of pending timers matches; all of this holds for both task kinds.",
     ["histories", "inputs"], "every sequence of add/set-timeout/tick/remove operations with arbitrary second and nanosecond values",
     "Tests use whole seconds and one or two tasks; carry of nanoseconds, equal deadlines and re-arming are not sampled.",
     [TM], [("deadline arithmetic", "task_manager.h set_timeout_timer, tick"), ("ordered checkpoints", "task_manager.h task_timeout_timer_ / remove_timeout_timer")],
     ["tick return values", "task status after each tick", "get_checkpoints, get_tick_checkpoint_size"])

prop("C11", "The manager of stackless tasks tracks exactly the live tasks it was given",
     "The manager for C++20-coroutine tasks contains exactly the tasks added and not yet finished, removed or reset, and start, cancel and kill by id act on that task or report not-found; finished tasks leave by themselves whether they end normally, are killed, cancelled or time out. Resetting or destroying the manager ends every contained task exactly once and leaves no task referring to it.",
     ["histories", "programs"], "every sequence of manager and task operations over several managers, including ones issued from inside task bodies",
     "Tests check single operations with tasks that finish normally.",
     [TM, TP], [("container and id index", "task_manager.h task_manager<task_future>"), ("self-removal on completion", "task_promise.h task context initialisation / finish callbacks")],
     ["find_task, get_task_size", "task status"])

prop("C12", "Identifiers are never zero and never repeat",
     "Identifiers handed out by the 64-bit allocator, and therefore task ids, are non-zero and pairwise different, whichever threads ask, however many are taken, and however the system clock advances or steps meanwhile.",
     ["schedules", "histories", "inputs"], "every distribution of allocations over threads, thread starts and exits, and every clock behaviour",
     "The test allocates a fixed number of ids in a few threads under a normal clock; sequence overflow and clock steps never happen there.",
     ["src/libcopp/utils/uint64_id_allocator.cpp", "include/libcopp/utils/uint64_id_allocator.h"],
     [("time/sequence word and per-thread cache", "uint64_id_allocator.cpp allocate")], ["returned ids"])

prop("C13", "Future storage keeps exactly the value it was given",
     "A poll or result container is, at every moment, either empty or holds exactly one value - a success or an error for results - equal to the last one put in; copying, moving, swapping, resetting and overwriting transfer or destroy values exactly as for an ordinary optional variant, for small, large, trivial, non-copyable and pointer-like payload types. Readiness is reported truthfully and no value is leaked or destroyed twice.",
     ["histories", "inputs"], "every sequence of construct/assign/move/swap/reset operations over all storage strategies",
     "Tests exercise each storage type with one or two hand-written sequences.",
     ["include/libcopp/future/storage.h", "include/libcopp/future/poller.h", "include/libcopp/future/future.h"],
     [("storage selection", "storage.h compact_storage / poll_storage"), ("success/error union", "storage.h result_base")],
     ["values read back", "instance counts"])

prop("C14", "A generator delivers its value to every waiter exactly once",
     "A coroutine awaiting a generator continues at once when a value is present and otherwise after the value is set, receives that value (moved to a single consumer, equal copies for several), and runs its continuation exactly once whatever the order of awaiting, setting, resetting and dropping. Dropping or killing the generator while coroutines wait wakes each of them once with the killed error, the suspend and resume callbacks pair up with real suspensions and resumptions, and nothing leaks.",
     ["histories", "programs"], "every interleaving of co_await, set, reset, copy/move of the handle and destruction over several generators and waiters",
     "Tests set one value for one waiter in each order.",
     ["include/libcopp/coroutine/generator_promise.h", SC, SCC],
     [("value hand-over", "generator_promise.h generator_context::set_value, awaitable"), ("waiter set", SCC + " promise_caller_manager")],
     ["values received by waiters", "callback call log", "instance counts"])

prop("C15", "Nested stackless callables return, propagate kills, and release everything",
     "Awaiting a callable coroutine yields exactly the value it returned, at any nesting depth and whether it finished before or after it was awaited, and every coroutine body runs forward exactly once. Killing a pending callable, or dropping its handle, makes what it waits for yield the kill status and lets its body run to the end without suspending again; a coroutine awaiting it goes on with the value it then returns, or, when that coroutine was the one killed, observes the kill status while the callable it waited for is ended too. Status queries always match, and all frames, locals and values are destroyed exactly once.",
     ["programs", "histories"], "every tree of callables awaiting callables and generators, with completion, kill and drop in any order",
     "Tests cover depth two or three with normal completion and single kills.",
     ["include/libcopp/coroutine/callable_promise.h", SC, SCC],
     [("hand-over to the caller", "callable_promise.h final suspend / awaitable"), ("kill propagation", "callable_promise.h kill; " + SCC + " promise_base_type::resume_waiting, inherit status")],
     ["awaited values", "get_status, is_ready, is_pending", "instance counts of frame locals"])

prop("C16", "A stackless task starts on demand, ends once, and lives as long as its handles",
     "A C++20-coroutine task does not run before it is started (or killed by force, or dropped), runs its body exactly once, and moves through created, running and one terminal status; start, cancel and kill succeed or are refused as the status allows, and the value it returned is what waiters and its result accessor see. Handles share one task: copies observe the same state, private data and id, the body is ended as killed when the last handle goes away, every awaiting coroutine is woken exactly once with the value or the kill status, and frames and values are released exactly once.",
     ["histories", "programs"], "every sequence of create/copy/move/drop/start/await/cancel/kill operations over several tasks and waiters, also from inside task bodies",
     "Tests use single tasks with normal completion and one kill each.",
     [TP, SC, SCC], [("shared context and handle counting", "task_promise.h task_future, task_context_base"), ("waking waiters", "task_promise.h final suspend, " + SCC + " resume_callers")],
     ["get_status, value access, get_task_id, get_ref_future_count", "instance counts"])

prop("C17", "Chained stackless tasks run after their predecessor, with its result",
     "A continuation attached to a stackless task runs exactly once, after that task ended, and receives the task's outcome - the value it returned, or an error when it was killed before it ran - whether it was attached before or after the end; its own result is what the chained task yields. Inside a task the yielded queries report its own status, id and private data, and private data handed to a chained task is the one it was created with.",
     ["programs", "histories"], "every chain of continuations over value, void, task and callable results, attached before, during and after the predecessor runs, with kills at any point",
     "Tests attach one continuation to one task that finishes normally.",
     [TP, "include/libcopp/coroutine/callable_promise.h"], [("continuation construction", "task_promise.h then"), ("task queries", "task_promise.h await_transform / yield_value")],
     ["continuation call log and arguments", "chained results"])

prop("C18", "Waiting for some, any or all ends exactly when enough have ended",
     "Awaiting all, any, or at least N of a list of stackless futures continues exactly when that many of them have ended - at once when that already holds - and not before, in any order of completion and with kills among them. The reported ready set contains precisely ended members of the list, without duplicates, at least as many as asked for, every future in the list keeps its own value, and ending the waiting coroutine leaves the remaining ones intact.",
     ["programs", "histories"], "every list (also empty, with finished or unstarted members), threshold, completion order and kill",
     "Tests use three or four futures completing in one order.",
     ["include/libcopp/coroutine/algorithm.h", "include/libcopp/coroutine/algorithm_common.h", "include/libcopp/coroutine/callable_promise.h", TP],
     [("pending bookkeeping", "callable_promise.h / task_promise.h some_delegate; algorithm_common.h")],
     ["ready lists", "moment of continuation"])

prop("C19", "Locks exclude, guards release once, and reference counts are exact",
     "At most one thread holds the spin lock at a time, everything written before a release is visible after the next acquisition, and try-lock succeeds exactly when the lock is free; a guard that acquired a lock releases it exactly once however it is moved, assigned, reset or destroyed, and one that failed to acquire it never releases it. An object managed by the intrusive pointer lives exactly as long as some pointer refers to it and is destroyed once, for every sequence of copies, moves, conversions, swaps and resets, also from several threads.",
     ["schedules", "histories"], "every interleaving of lock operations by any number of threads and every history of guard and pointer operations",
     "The tests count increments under the lock in a few threads and touch each operator once.",
     ["include/libcopp/utils/spin_lock.h", "include/libcopp/utils/lock_holder.h", "include/libcopp/utils/intrusive_ptr.h", "include/libcopp/utils/atomic_int_type.h"],
     [("exchange-based lock", "spin_lock.h"), ("guard ownership", "lock_holder.h"), ("reference transfer", "intrusive_ptr.h")],
     ["lock state", "destruction counts"])

prop("C20", "Stackful coroutines, tasks and managers can be driven from several threads",
     "When several threads try to enter the same stackful coroutine or task, at most one runs it at any time, each of its steps runs exactly once, and the others are refused with an error; what one thread wrote inside the coroutine is visible to the thread that resumes it next. Killing or cancelling a task while other threads run it ends it exactly once, runs its followers once and hands the kill's data to the body. Concurrent adding, lookup, starting, killing and removing through one manager, also while one thread ticks it, loses no task, completes each one exactly once and leaves the manager consistent; managers of stackless tasks can be shared in the same way by threads which each use tasks of their own.",
     ["schedules"], "every interleaving of entry, kill and manager operations from any number of threads",
     "The multi-threaded tests let every thread work on its own coroutines.",
     [CO, TASK, TM, TI], [("status compare-and-swap", CO + " start; task.h start, resume, kill"), ("manager locks", "task_manager.h action_lock_")],
     ["step counters", "return codes", "manager size"])

prop("C21", "Stackful and stackless code can wait for each other",
     "A stackful task can be awaited by stackless coroutines like any other future, by its handle or by reference: each waiter continues exactly once, after the task ended, with the task's result code or the error code of its kill status, whether it waited before or after the end. Ending the waiter first detaches it without disturbing the task, and ending the task by cancel, kill, timeout or dropping the last reference wakes all waiters.",
     ["programs", "histories"], "every combination of stackful tasks and stackless waiters with completions, kills and drops in any order",
     "Tests await one finished and one pending stackful task.",
     [TASK, TI, SC, SCC, "include/libcotask/impl/task_impl.h"], [("waiter registration on a stackful task", "task.h operator co_await / task awaitable; promise_caller_manager"), ("wake-up at completion", "task.h _notify_finished")],
     ["values received by waiters", "waiter status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fp.write(json.dumps(p) + "\n")
