# which harness decides which property, in which build modes, with how many cases (quick, thorough)
_W = ["-g", "-fno-omit-frame-pointer", "-w", "-DNDEBUG", "-fvisibility=hidden", "-DLIBCOPP_FCONTEXT_USE_TSX=1"]
MODES = {
    # clang, AddressSanitizer (heap), coverage feedback
    "asan": {
        "cc": "clang", "cxx": "clang++",
        "cflags": ["-O1", "-fsanitize=address", "-mllvm", "-asan-stack=0", "-D_GLIBCXX_ASSERTIONS"] + _W +
                  ["-fsanitize-coverage=inline-8bit-counters"],
        "asflags": ["-DLIBCOPP_FCONTEXT_USE_TSX=1"],
        "rtflags": ["-fsanitize=address", "-mllvm", "-asan-stack=0"],
        "ldflags": ["-fsanitize=address", "-g"],
    },
    # the compiler and flags of the shipped build
    "gcc": {
        "cc": "gcc", "cxx": "g++",
        "cflags": ["-O2"] + _W,
        "asflags": ["-DLIBCOPP_FCONTEXT_USE_TSX=1"],
        "ldflags": ["-g"],
    },
    # as gcc, with the other build option of the context switch (floating point environment preserved)
    "gccfp": {
        "cc": "gcc", "cxx": "g++",
        "cflags": ["-O2", "-DVP_FP_ENV=1"] + [x for x in _W if "TSX" not in x],
        "asflags": [],
        "ldflags": ["-g"],
    },
    # as gcc, with the other choice of every build option that has one: pbt/alt_features.h
    "gccalt": {
        "cc": "gcc", "cxx": "g++",
        "cflags": ["-O2", "-include", "alt_features.h"] + _W,
        "asflags": ["-DLIBCOPP_FCONTEXT_USE_TSX=1"],
        "ldflags": ["-g"],
    },
    # as asan, one thread at a time with generated preemptions (harness/preempt.h)
    "sched": {
        "cc": "clang", "cxx": "clang++",
        "cflags": ["-O1", "-fsanitize=address", "-mllvm", "-asan-stack=0", "-D_GLIBCXX_ASSERTIONS", "-DVP_SCHED=1"] + _W +
                  ["-fsanitize-coverage=inline-8bit-counters,trace-pc-guard,trace-loads,trace-stores"],
        "asflags": ["-DLIBCOPP_FCONTEXT_USE_TSX=1"],
        "rtflags": ["-fsanitize=address", "-mllvm", "-asan-stack=0"],
        "ldflags": ["-fsanitize=address", "-g"],
    },
    "tsan": {
        "cc": "clang", "cxx": "clang++",
        # coroutines change stacks: no shadow call stack
        "cflags": ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-DVP_TSAN=1"] + _W,
        "asflags": ["-DLIBCOPP_FCONTEXT_USE_TSX=1"],
        "rtflags": ["-fsanitize=thread"],
        "ldflags": ["-fsanitize=thread", "-g"],
    },
}
EXTRA = {h: ["-DVP_NO_MANAGER=1"] for h in ("task_life", "task_chain", "sl_task", "sl_then", "sl_ev_task", "sl_ev_call", "sl_call",
                                            "bridge")}
EXTRA_LD = {"stack_alloc": ["-Wl,--wrap=mmap", "-Wl,--wrap=munmap", "-Wl,--wrap=mprotect", "-Wl,--wrap=malloc"]}
CHECKS = {}
NOT_CLAIMED = {}


def check(pid, technique, note, runs, assumptions=()):
    CHECKS[pid] = {"technique": technique, "note": note, "runs": sorted(runs, key=lambda r: r["mode"] == "gccalt"),
                   "assumptions": list(assumptions)}


def run(harness, mode, quick, thorough, wall=(200, 1500)):
    return {"harness": harness, "mode": mode, "cases": (quick, thorough), "wall": wall}


check("C01", "stateful model-based testing of generated resume/yield programs",
      "Search over generated programs (bounded number of coroutines and steps); no absence claim. Trusts the model in "
      "harness/co_state.cpp and the compiler.",
      [run("co_state", "asan", 250000, 6000000), run("co_state", "gcc", 400000, 8000000), run("co_state", "gccalt", 0, 1333333),
       run("threads_co", "sched", 240000, 3000000),
       run("bulk_c01", "asan", 12000, 300000)])
check("C02", "generated switch programs with canaries in registers, locals and frames",
      "Search over generated programs on x86-64 System V only, in both build options of the switch; trusts the register "
      "probe in harness/co_switch.cpp.",
      [run("co_switch", "asan", 300000, 2000000), run("co_switch", "gcc", 450000, 3000000),
       run("co_switch", "gccfp", 450000, 3000000),
       run("bulk_c02", "asan", 20000, 450000)])
check("C06", "model-based testing of generated pool histories, generated threaded histories under ThreadSanitizer",
      "Search over generated histories with an instrumented origin allocator. Threads: generated preemptions "
      "(harness/preempt.h) and the schedules the machine produced under ThreadSanitizer; trusts the model in harness/stack_pool.cpp.",
      [run("stack_pool", "asan", 60000, 1500000), run("stack_pool", "gccalt", 0, 1500000), run("stack_pool", "sched", 200000, 3000000), run("stack_pool", "tsan", 6000, 150000),
       run("bulk_c06", "asan", 16000, 400000)])
check("C05", "generated allocation histories over every stack allocator with probed and filled memory",
      "Search over generated histories and sizes; page accessibility is observed through the kernel. The "
      "segmented-stack and Windows allocators are not part of this build.",
      [run("stack_alloc", "asan", 30000, 800000), run("stack_alloc", "gcc", 60000, 1500000)])
check("C19", "model-based testing of generated guard, pointer and lock histories; generated thread programs under "
      "ThreadSanitizer",
      "Search over generated histories with counting locks and counted objects; threads: generated preemptions "
      "(harness/preempt.h) and ThreadSanitizer's happens-before analysis of the schedules the machine produced.",
      [run("sync", "asan", 240000, 2000000), run("sync", "gcc", 240000, 2000000), run("sync", "gccalt", 0, 333333), run("sync", "sched", 160000, 3000000), run("sync", "tsan", 5000, 120000)])
check("C12", "generated sequences of id requests, threads, preemptions and clock steps with a uniqueness oracle",
      "Search over generated phase sequences, each in a fresh process with a virtual clock; sequence exhaustion (2^29 "
      "ids) is reached in a fraction of the cases.",
      [run("ids", "gcc", 1600, 16000), run("ids", "gccalt", 0, 2666), run("ids", "sched", 12000, 300000)])
check("C13", "model-based testing of generated container histories against optional and variant models",
      "Search over generated histories; payload types are a fixed list covering every storage class. Constructors that "
      "throw are outside it: the containers declare themselves noexcept.",
      [run("storage", "asan", 1200000, 24000000), run("storage", "gcc", 4000000, 48000000), run("storage", "gccalt", 0, 8000000)])
check("C03", "generated programs of throwing, catching and entering with every throw recorded at its origin",
      "Search over generated programs; exception state is per thread, so programs never suspend a coroutine inside a "
      "handler or an unwinding destructor.",
      [run("exc", "asan", 200000, 3000000), run("exc", "gcc", 600000, 8000000),
       run("bulk_c03", "asan", 16000, 400000)])
check("C04", "generated creation and release histories with layout comparison and counted stacks and callables; generated "
      "threads and preemptions over shared references",
      "Search over generated sizes, allocators and histories. User memory is 64-byte aligned; an object whose frames have "
      "less than 96 KiB is created and dropped but not run.",
      [run("co_mem", "asan", 40000, 1500000), run("co_mem", "gcc", 80000, 3000000), run("co_mem", "gccalt", 0, 500000),
       run("mem_threads", "sched", 160000, 3000000), run("mem_threads", "tsan", 4000, 120000),
       run("bulk_c04", "asan", 16000, 400000)])
check("C07", "model-based testing of generated task histories with nested operations",
      "Search over generated histories in one thread, of at most 8 tasks in full and of up to 300 in simpler scenarios, and of threads that "
      "share tasks (the world of C20 by itself); bodies that throw belong to C03.",
      [run("task_life", "asan", 250000, 6000000), run("task_life", "gcc", 2500000, 60000000), run("task_life", "gccalt", 0, 10000000),
       run("threads_task", "sched", 240000, 3000000),
       run("bulk_c07", "asan", 20000, 450000)])
check("C08", "model-based testing of generated chaining and awaiting histories",
      "Search over generated histories of at most 8 tasks in one thread, and of threads that share tasks (as C20); circular chains, which the library documents as "
      "leaks, are not generated.",
      [run("task_chain", "asan", 250000, 6000000), run("task_chain", "gcc", 2500000, 60000000), run("task_chain", "gccalt", 0, 10000000),
       run("threads_task", "sched", 240000, 3000000),
       run("bulk_c08", "asan", 20000, 450000)])
check("C09", "model-based testing of generated manager histories with nested operations",
      "Search over generated histories of at most 8 tasks and two managers in one thread, and of threads that share a manager (as C20); a manager is not destroyed while "
      "one of its own operations runs.",
      [run("task_mgr", "asan", 200000, 6000000), run("task_mgr", "gcc", 1500000, 40000000), run("task_mgr", "gccalt", 0, 6666666),
       run("threads_mgr", "sched", 240000, 3000000), run("threads_mgr", "tsan", 1000, 40000),
       run("bulk_c09", "asan", 16000, 400000)])
check("C10", "model-based testing of generated timer and tick histories with deadlines to the nanosecond",
      "Search over generated histories with a generated clock; timeouts and times are non-negative with nanoseconds in "
      "range, as the interface requires.",
      [run("task_timer", "asan", 150000, 4000000), run("task_timer", "gcc", 1000000, 30000000), run("task_timer", "gccalt", 0, 5000000),
       run("sl_timer", "asan", 60000, 1500000), run("sl_timer", "gcc", 400000, 5000000), run("sl_timer", "gccalt", 0, 833333),
       run("threads_mgr", "sched", 120000, 3000000),
       run("bulk_c10", "asan", 16000, 400000)])
check("C14", "model-based testing of generated await, set, reset and drop histories",
      "Search over generated histories in one thread. A generator is not reset while waiters of its value are still being "
      "woken, and not while a some() that lists it is pending.",
      [run("sl_gen", "asan", 500000, 6000000), run("sl_gen", "gcc", 4000000, 24000000), run("sl_gen", "gccalt", 0, 4000000),
       run("bulk_c14", "asan", 16000, 400000)])
check("C15", "model-based testing of generated trees of callables with kills and drops",
      "Search over generated histories in one thread. A body does not end the callable that owns it, directly or through "
      "callables that wait for it.",
      [run("sl_call", "asan", 300000, 3000000), run("sl_call", "gcc", 2400000, 12000000), run("sl_call", "gccalt", 0, 2000000),
       run("sl_ev_call", "asan", 180000, 2000000), run("sl_ev_call", "gcc", 1500000, 8000000), run("sl_ev_call", "gccalt", 0, 1333333),
       run("bulk_c15", "asan", 16000, 400000)])
check("C16", "model-based testing of generated task histories with nested operations",
      "Search over generated histories in one thread. A body does not drop the last handle of a task that is running.",
      [run("sl_task", "asan", 300000, 3000000), run("sl_task", "gcc", 2400000, 12000000), run("sl_task", "gccalt", 0, 2000000),
       run("sl_ev_task", "asan", 180000, 2000000), run("sl_ev_task", "gcc", 1500000, 8000000), run("sl_ev_task", "gccalt", 0, 1333333),
       run("bulk_c16", "asan", 16000, 400000)])
check("C18", "model-based testing of generated lists, thresholds and completion orders",
      "Search over generated histories in one thread; members of a list are distinct and stay alive while it is waited for.",
      [run("sl_some", "asan", 500000, 6000000), run("sl_some", "gcc", 4000000, 24000000), run("sl_some", "gccalt", 0, 4000000),
       run("bulk_c18", "asan", 12000, 300000)])
check("C17", "model-based testing of generated continuation graphs",
      "Search over generated histories in one thread with 108 combinations of predecessor, thenable and continuation types; "
      "thenables that throw and custom error transforms are not generated.",
      [run("sl_then", "asan", 360000, 4000000), run("sl_then", "gcc", 3000000, 16000000), run("sl_then", "gccalt", 0, 2666666),
       run("bulk_c17", "asan", 20000, 450000)])
check("C11", "model-based testing of generated manager histories with nested operations",
      "Search over generated histories of stackless tasks and two managers in one thread, and of threads that share managers (as C20); a manager is not destroyed while one "
      "of its own operations runs, and a body does not let the last handle of a running task go.",
      [run("sl_mgr", "asan", 400000, 5000000), run("sl_mgr", "gcc", 3000000, 18000000), run("sl_mgr", "gccalt", 0, 3000000),
       run("sl_threads", "sched", 120000, 3000000), run("sl_threads", "tsan", 1000, 40000),
       run("bulk_c11", "asan", 16000, 400000)])
check("C21", "model-based testing of generated histories of stackful tasks and the coroutines that wait for them",
      "Search over generated histories in one thread; a body does not drop the last handle of the stackful task it runs in.",
      [run("bridge", "asan", 320000, 2500000), run("bridge", "gcc", 1000000, 8000000), run("bridge", "gccalt", 0, 1333333),
       run("bulk_c21", "asan", 20000, 450000)])

check("C20", "generated thread programs with generated preemptions against an interval oracle, and under ThreadSanitizer",
      "Interleavings at the granularity of basic blocks, loads and stores of the instrumented library (sequentially "
      "consistent), plus what real schedules and happens-before analysis show. At most four threads and six objects. "
      "cancel() by id, reset() and destruction of a manager while other threads use it, and adding one task from two "
      "threads are outside the statement; tick() is not part of the ThreadSanitizer runs.",
      [run("threads", "sched", 480000, 3000000), run("threads", "tsan", 3000, 100000), run("threads", "gcc", 20000, 500000),
       run("sl_threads", "sched", 320000, 3000000), run("sl_threads", "tsan", 2000, 60000)])
