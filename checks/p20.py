from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    exe = build.harness("wkb", ["wkb.cpp"], build.objects())
    jobs = []
    J = lambda np, th, *a: jobs.append(Job(exe, list(a), np=np, threads=th))
    shapes = [(8, 1, 1), (8, 2, 2), (8, 4, 1), (12, 3, 1)]
    if T: shapes += [(12, 1, 2), (16, 4, 2), (16, 2, 1)]
    for prec in ("single", "double"):
        for two in (0, 1):
            for k, (N, np, Ng) in enumerate(shapes):
                J(np, 1 + (k + two) % 2 if np < 3 else 1, "dense", prec, N, np, Ng, two)
                if N == 8 or T: J(np, 1 + (k + two + 1) % 3 if np < 3 else 1, "single", prec, N, np, Ng, two)
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="each case is one extrapolation of an angle field (dense random values, or one plane wave for every wave vector) between two times, for a growth and scale of the mass, a position of the end of its growth, a box, a number of ranks, one or two fields. Both adiabatic amplitudes of every Fourier mode afterwards are compared with the amplitudes before times the phase of that mode's frequency integrated numerically in long double. A case counts as non-trivial if the field is not zero.",
        assumptions=["cubic lattices of side 8 and 12 (16 thorough), 1 to 4 ranks, radiation domination", "mass growing as a power of time, constant after the end of its growth, or zero"])
