from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    exe = build.harness("gad", ["gad.cpp"], build.objects())
    jobs = []
    J = lambda np, th, *a: jobs.append(Job(exe, list(a), np=np, threads=th, env={"MALLOC_PERTURB_": "165"}))
    shapes = [(8, 1, 1), (8, 2, 2), (8, 4, 1), (12, 3, 1)]
    if T: shapes += [(16, 4, 1), (12, 2, 2), (8, 8, 1)]
    for k, (N, np, Ng) in enumerate(shapes):
        J(np, 3 if np == 1 else 1 + k % 2, "void", N, np, Ng)
        J(np, 2 if np == 1 else 1, "halo", N, np, Ng)
        if np == 1: J(np, 1, "halo", N, np, Ng)
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="each density pattern (uniform, dense labels, every point alone or in pairs, every subset of ranks) is exported by the real functions and the file is read back and compared, particle by particle (void) or cell by cell (halo), with the density", assumptions=["cubic lattice, single precision (others are refused), as many particles as points in the void mapping (the program says so)", "smoothed velocities and displaced particles of the void mapping are left out"])
