"""Which worlds decide which property, and how many runs each tier makes."""
LIB = "all of libcantera (compiled from the working tree), yaml-cpp, fmt, SUNDIALS, OpenBLAS"
FS = "disk under /simfs (in-memory files behind fopen/open/read/write/writev/close/stat/unlink)"
CLK = "clock (clock_gettime/gettimeofday/time/clock)"

CHECKS = {
    "D01": dict(
        worlds=[dict(variant="plain", world="savecomplete", quick=900, thorough=20000)],
        rule="random sequences of save/CSV/mechanism-file/1D-solution writes with write, open, close and "
             "disk-full faults; non-trivial when a fault fired",
        real=[LIB], stub=[FS, CLK]),
    "D02": dict(
        worlds=[dict(variant="plain", world="archive", quick=1200, thorough=25000)],
        rule="random histories of save/refused save/failed save/restore/restart on two archive files with "
             "read faults, allocation failures, unserialisable data; non-trivial when a fault or restart fired",
        real=[LIB], stub=[FS, CLK]),
    "H01": dict(
        worlds=[dict(variant="plain", world="coherence", quick=7000, thorough=60000)],
        rule="random interleavings of state changes, refused operations, reads and reads that fail by allocation "
             "failure on one shared phase/kinetics/transport out of all models; non-trivial when several reads "
             "were interleaved with state changes",
        real=[LIB], stub=["operator new (seeded failures)"]),
    "H02": dict(
        worlds=[dict(variant="plain", world="modify", quick=6000, thorough=200000)],
        rule="random histories of accepted and refused changes of species, reactions, rates, reference enthalpies and multipliers with reads, state changes and holders in between; non-trivial when more than one change was accepted",
        real=[LIB], stub=["operator new (seeded failures)"]),
    "F01": dict(
        worlds=[dict(variant="plain", world="oom", quick=4500, thorough=120000)],
        rule="client work of a random kind interrupted by failing allocations (single, burst, persistent), other work, "
             "then the same work again; non-trivial when an allocation failed",
        real=[LIB], stub=[FS, "operator new (seeded failures)"]),
    "X01": dict(
        worlds=[dict(variant="plain", world="determinism", quick=6000, thorough=150000)],
        rule="the same client work in an undisturbed process and after random earlier work, with junk-filled memory, "
             "shifted addresses, jumping clock; non-trivial: every run",
        real=[LIB], stub=[FS, CLK, "malloc/free (contents, padding, reuse)"]),
    "R01": dict(
        worlds=[dict(variant="plain", world="netfault", quick=2500, thorough=120000)],
        rule="generated reactor networks with failing user functions, allocations and step limits during any request, then continuation or restart; non-trivial when a fault fired",
        real=[LIB], stub=["operator new (seeded failures)", "user-supplied functions (seeded failures)"]),
    "R02": dict(
        worlds=[dict(variant="plain", world="netbalance", quick=2500, thorough=120000)],
        rule="generated reactor networks over random histories of advances, steps, step limits, restarts and transient failures, with balances after each; non-trivial: every run",
        real=[LIB], stub=["operator new (seeded failures)", "user-supplied functions (seeded failures)"]),
    "R03": dict(
        worlds=[dict(variant="plain", world="netclient", quick=2500, thorough=120000)],
        rule="generated reactor networks whose requests are interleaved with reads, changes of shared phases and other networks; non-trivial when a shared phase was changed",
        real=[LIB], stub=["operator new"]),
    "C01": dict(
        worlds=[dict(variant="sched", world="threads", quick=260, thorough=6000)],
        rule="2-4 threads doing random work on own objects under a seeded scheduler; non-trivial when more than three preemptions happened",
        real=[LIB], stub=["thread scheduling (pthread mutex/cond/once/create behind a seeded scheduler)", FS, CLK]),
    "C02": dict(
        worlds=[dict(variant="sched", world="shared", quick=420, thorough=9000)],
        rule="2-4 threads making first use of the library's process-wide facilities, with an external editor of a shared file; non-trivial when more than three preemptions happened",
        real=[LIB], stub=["thread scheduling (pthread mutex/cond/once/create behind a seeded scheduler)", FS, CLK]),
    "C03": dict(
        worlds=[dict(variant="sched", world="messages", quick=6000, thorough=200000)],
        rule="2-5 threads logging, warning, recording and reading errors, replacing loggers and ending; non-trivial when more than three preemptions happened",
        real=[LIB], stub=["thread scheduling (pthread mutex/cond/once/create behind a seeded scheduler)", FS, CLK]),
}
