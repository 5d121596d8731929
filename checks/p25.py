from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    exe = build.harness("icon", ["icon.cpp"], build.objects())
    jobs = []
    J = lambda np, th, *a: jobs.append(Job(exe, list(a), np=np, threads=th))
    shapes = [(8, 8, 1, 1), (8, 8, 2, 2), (8, 8, 4, 1), (8, 12, 2, 1), (12, 6, 1, 2), (12, 12, 3, 1)]
    if T: shapes += [(16, 16, 1, 2), (16, 16, 4, 2), (16, 24, 2, 3), (24, 12, 2, 2)]
    for prec in ("single", "double"):
        for k, (N, D, np, Ng) in enumerate(shapes):
            J(np, 1 + k % 3, "pos", prec, N, D, np, Ng)
            J(np, 1 + (k + 1) % 3, "mom", prec, N, D, np, Ng)
            J(np, 1 + k % 3, "chain", prec, N, D, np, Ng)
            J(np, 1 + (k + 1) % 3, "ran", prec, N, D, np, Ng)
            for th in ((1, 3) if np == 1 or T else (2,)):
                J(np, th, "spax", prec, N, D, np, Ng)
                J(np, th, "spaxs", prec, N, D, np, Ng)
        for N, D, np, Ng in shapes[:2] + shapes[6:]: J(np, 2, "prep", prec, N, D, np, Ng)
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="each case is one generation of initial conditions: a kind, its options, a lattice, a number of ranks and threads, with the random seeds fixed. The amplitude of every Fourier mode, or the value at every point, of field and velocity is compared with what the options ask for.",
        assumptions=["sides 8 to 12 (24 thorough), 1 to 4 ranks, 1 to 3 threads", "random kinds: what must hold for any random numbers, and the mean square of the amplitudes within seven standard deviations for the fixed seeds", "not covered: strings read from a file, old kinds kept for legacy (vilgork, vilgors)"])
