from vlib import build
from vlib.core import Job

SAX, AX, AXMOD, WKB, NAX, PAX = 1, 2, 130, 6, 512, 1024

def main(ck):
    objs = build.objects(skip=("propagator/propagator.cpp",))
    exe = build.harness("p01", ["p01.cpp"], objs)
    jobs = []
    depth = 5 if ck.thorough else 3
    for prec in ("single", "double"):
        for t in (SAX, AX, PAX, NAX) + ((AXMOD, WKB) if ck.thorough else ()):
            for N, Lz, Ng in ((8, 4, 1), (16, 3, 2)) + (((24, 5, 3), (40, 2, 1), (8, 9, 2)) if ck.thorough else ()):
                for th in (1, 3):
                    jobs.append(Job(exe, [prec, t, N, Lz, Ng, depth if N < 24 else 3, 1], threads=th))
        jobs.append(Job(exe, [prec, SAX, 8, 4, 1, depth, 2], np=2))
        jobs.append(Job(exe, [prec, AX, 8, 4, 1, depth, 2], np=2))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="every sequence of the layout operations (fold, unfold, fold M2, unfold M2) up to depth %d followed by every operation incl. every slice "
             "position, from the real Folder, per field type x precision x lattice x threads x ranks; every element carries a distinct label; "
             "compared with a model in lexicographic order after each step. Non-trivial: every case (labels are all distinct)" % depth,
        assumptions=["lattice sides up to 40 points, AVX2 layout (32-byte vectors)", "slices are in range (z < local depth, x < side)"])
