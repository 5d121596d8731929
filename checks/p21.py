from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    exe = build.harness("grav", ["grav.cpp"], build.objects(), ldextra=["-Wl,--wrap=_ZN8AxionFFT9fetchPlanENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"])
    jobs = []
    J = lambda np, th, *a: jobs.append(Job(exe, list(a), np=np, threads=th))
    for prec in ("single", "double"):
        # side, layers of ghosts, ranks
        for N, Ng, np in ((16, 1, 1), (16, 1, 2), (16, 1, 4)) + (((16, 2, 2), (24, 1, 3)) if prec == "double" else ((32, 2, 2),) if T else ()):
            for folded in (0, 1):
                J(np, 2 if np == 1 else 1, "full", prec, N, Ng, np, folded, 1 if T or (N == 16 and np == 1 and folded) else 37 if N == 16 else 301)
                J(np, 2, "norm", prec, N, Ng, np, folded)
                J(np, 1, "axion", prec, N, Ng, np, folded)
                J(np, 2 if np == 1 else 1, "step", prec, N, Ng, np, folded)
                if N == 16 and Ng == 1 or N == 24: J(np, 1, "tuned", prec, N, Ng, np, folded)
        for N, Ng, np in ((32, 1, 1), (32, 1, 2), (32, 2, 1), (32, 2, 4)) + (((64, 1, 4), (64, 4, 2)) if T else ()):
            J(np, 2 if np == 1 else 1, "hybrid", prec, N, Ng, np, np % 2)
    for N, np in ((24, 1), (40, 1), (40, 2)): J(np, 2, "tuned", "double", N, 1, np, 1)
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="each case is one computation of the potential (or 1-2 time steps with it) by the real code compared at every point with the exact solution in long double: density = every single Fourier mode of the lattice, every single point source, dense ones, every block shape; fields ordered plainly or in vector order; angle fields with their energy density; normalisation of the field and its self-coupling; the tuning of the hybrid method with a clock that makes every choice the fastest on every rank (all assignments on two ranks); time steps for six cosmologies and couplings. The hybrid method is an approximation: every mode of up to an eighth of the side must come out within 20 to 80 % of the exact one. All distinct.",
        assumptions=["cubic lattices of side 16 to 40 (thorough 64), at least twice the layers of ghosts times the vector lanes", "the density given to the solver for angle fields is taken from the library's energy map (checked by P09)", "accuracy of the hybrid method after its tuning, which selects the reduction by speed alone, is not checked", "multi-rank configurations: every 37th mode and point in the quick tier"])
