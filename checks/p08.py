from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    objs = build.objects(skip=["propagator/propagator.cpp"])
    exe = build.harness("fft", ["fft.cpp"], objs, ldextra=["-lm"])
    jobs = []
    for prec in ("single", "double"):
        for np, th, lz in ((1, 1, 8), (1, 3, 6), (2, 1, 6), (2, 2, 4), (4, 1, 2)) + (((8, 1, 1), (1, 2, 2), (4, 2, 4)) if T else ()):
            for plan in (64, 0) if T or np < 4 else (64,):
                jobs.append(Job(exe, ["plans", prec, np, lz, plan, 1 if T or plan else 3], np=np, threads=th))
            jobs.append(Job(exe, ["field", prec, np, lz, 64, 1], np=np, threads=th))
        for np in (1, 2):
            jobs.append(Job(exe, ["history", prec, np, 4, 64, 4 if T else 3], np=np))
            jobs.append(Job(exe, ["lives", prec, np, 4, 64, 3 if T else 2], np=np, threads=2))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="evaluation = one element of a basis of inputs (a delta, and i times a delta for complex plans, at every point of the lattice, plus one dense input) through one plan in one direction, every output mode compared with the exact transform and every byte outside the output compared with before; or the same through the field transform (folded or not, components in every order, repeated); or one history of planning / removing / running two named plans, or of creating and deleting fields; counted once per (plan kind, precision, ranks, threads, planner, direction, input) or history",
                     assumptions=["side 8, local depth at most the side times the layers of ghosts (beyond that the arrays are too small for the padded real transforms), side divisible by the ranks", "planning itself overwrites the arrays unless FFTW_ESTIMATE is chosen, so data are filled in after planning", "two fields with plans of different precision alive at the same time are not supported by the program and not explored"])
