RULES = {
    "*": "A case is one simulated execution of a generated scenario: every choice (operations, sizes, thread switches, "
         "delays, clock steps, faults, crash points) is drawn from the run's seed. Two cases are distinct when the hash of "
         "all their events, arguments and results differs; a case with no library call is not generated.",
}
_MU = ["src/random.c also as built for a C library without thread_local and getrandom", "the inline functions of futils/random.h, compiled instrumented through probe/randinl.c"]
_PU = ["src/timetools.c and src/systimetools.c also as built with libputils (system properties are a stub)"]
REAL_MORE = {
    "C11": _MU, "C12": _MU, "C13": _MU, "C14": _MU, "C19": _PU, "C20": _PU,
    "C24": ["the inline functions and iterators of futils/list.h, compiled instrumented through probe/listprobe.c"],
    "C29": ["src/fs.cpp, src/string.cpp and their own instances of the C++ string templates, compiled instrumented"],
    "C30": ["the macros of futils/futils.h, expanded in probe/macroprobe.c, compiled instrumented"],
}
REAL = ["every src/*.c file of libfutils, compiled from /repo's working tree with access instrumentation"]
STUBS = ["thread scheduler, mutexes and condition variables", "clocks, sleeps and timed waits", "pipes and poll", "file system, stdio and page cache",
         "entropy devices", "inotify queue", "memory allocator", "ulog (no output)"]
ASSUMPTIONS = {
    "*": ["sequentially consistent memory: switches happen between memory accesses of the compiled code, weaker hardware orders are not simulated",
          "glibc and kernel calls behave as the simulator models them (sim/sync.cpp, sim/io.cpp)"],
}
LEVEL = {}

TECH = {"*": "deterministic simulation with fault injection: seeded search over schedules, clocks, entropy and system-call faults, with replayable minimised traces"}
_N = "Seeded exploration: the property held in every simulated execution of the run, no statement about others. Trusts the simulator's model of libc and the kernel (sim/) and sequentially consistent memory."
_SEQ = " The code itself is sequential: the simulator supplies what it is used in (%s) and generates the arguments; a defect that depends on the argument alone is found by that sampling, not by the schedule."
NOTES = {"*": _N,
         "C24": _N + _SEQ % "threads taking turns under a lock, preempted at any access, different lists used at once",
         "C25": _N + _SEQ % "links that cut, delay, lose and corrupt, dying senders, several streams at once",
         "C26": _N + _SEQ % "clocks that stall, step and are coarse, several tasks at once",
         "C27": _N + _SEQ % "nodes with own clocks, delayed and corrupted messages, several threads at once",
         "C28": _N + _SEQ % "conversion services and allocations that fail, text cut in transit, several threads at once",
         "C29": _N + _SEQ % "several threads at once, allocations that fail anywhere",
         "C30": _N + _SEQ % "operands changed by other threads between any two accesses"}
NA = {}
