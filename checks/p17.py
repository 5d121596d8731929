from vlib import build
from vlib.core import Job
import os

TS = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-g1"]

def main(ck):
    T = ck.thorough
    def thr():
        objs = build.objects(only=("comms/comms.cpp", "utils/memAlloc.cpp", "utils/logger.cpp"), opt=("-O1",), extra=TS)
        h = build.compile_one(os.path.join(build.VERIF, "harness/logthr.cpp"), ["-O1"], ["-I%s/harness" % build.VERIF] + TS)[0]
        return build.harness("logthr", ["thrsim.cpp"], [h] + objs, extra=["-g1"], ldextra=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free"], libs=["-lpthread", "-ldl"])
    def mpi(): return build.harness("logmpi", ["logmpi.cpp"], build.objects(skip=["propagator/propagator.cpp"]))
    exe, mexe = build.together(thr, mpi)
    jobs = []
    P = 8
    for all in (0, 1):
        for bound, lm, lw, nw, parts in ((2, 3, 0, 0, 4), (1, 2, 2, 1, 4), (2, 2, 1, 1, 8)) + (((3, 3, 3, 1, 32), (2, 2, 2, 2, 32), (4, 2, 1, 1, 16)) if T else ()):
            for p in range(parts): jobs.append(Job(exe, [all, bound, lm, lw, nw, p, parts], timeout=850))
    for np, depth, parts in ((2, 4 if T else 3, 8 if T else 2), (3, 3 if T else 2, 4 if T else 1)):
        for lock in (0, 1):
            for p in range(parts): jobs.append(Job(mexe, ["ops", depth, lock, p, parts], np=np, timeout=800))
        jobs.append(Job(mexe, ["len"], np=np))
    for np, z, ns in ((1, 1, "9"), (2, 2, "09"), (2, 2, "90"), (2, 2, "55"), (4, 4, "1305")):
        for k in "me": jobs.append(Job(mexe, ["prog", ns, z, k], np=np))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
                     rule="evaluation = one schedule of the real logger's threads for one script of operations (threads part, counted once per schedule and script), or one sequence of operations over the ranks (processes part, counted once per sequence, as one run of it); every message logged must be exactly once and complete in the log file, no data race, deadlock or MPI call outside the main thread",
                     assumptions=["threads: all schedules with at most the stated number of departures from the default (delay bound), switches at synchronisation calls; data races between them are found by vector clocks over all instrumented accesses", "accesses inside the precompiled part of the C++ library are seen only through the wrapped memcpy/memmove/memset", "processes: one run per sequence, the message timing of the real MPI is not controlled except by barriers between operations", "messages logged after the shutdown of the log are not covered"])
