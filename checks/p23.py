import os
from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    exe = build.harness("red", ["red.cpp"], build.objects(skip=("propagator/propagator.cpp",)))
    jobs = []
    J = lambda np, th, *a: jobs.append(Job(exe, list(a), np=np, threads=th))
    # side, depth, ranks, halo, new side, new depth
    shapes = ((8, 8, 1, 1, 4, 4), (8, 8, 2, 2, 4, 4), (8, 8, 4, 1, 4, 4), (8, 16, 2, 1, 4, 8), (12, 6, 3, 2, 4, 3), (12, 12, 1, 1, 8, 8), (12, 8, 2, 1, 8, 6))
    for ty in ("saxion", "axion", "axionmod", "paxion"):
        for prec in ("single", "double"):
            for k, (N, D, np, Ng, M, MT) in enumerate(shapes):
                for inp in (0, 1):
                    if not T and ty in ("axionmod", "paxion") and (prec == "double") != bool((k + inp) % 2): continue
                    fold = (k + inp) % 2 if ty != "paxion" else 0
                    full = T or (k in (0, 3) and ty in ("saxion", "axion"))
                    J(np, 1 + (k % 2), "mv", ty, prec, N, D, np, Ng, M, MT, fold, inp, (1 if k == 0 or T else 3) if full else 23)
                if ty in ("saxion", "axion"): J(np, 2, "energy", ty, prec, N, D, np, Ng, M, MT, 0, 0, 1 if T or k in (0, 3) else 7)
    for prec in ("single", "double"):
        for N, D, np, Ng in ((8, 8, 1, 1), (8, 8, 2, 2), (8, 12, 3, 1), (12, 6, 1, 3)):
            J(np, 2, "smooth", "saxion", prec, N, D, np, Ng, N, D)
        for ty in ("saxion", "axion"):
            for N, np, Ng in ((8, 1, 1), (8, 2, 2), (12, 3, 1)): J(np, 2, "filter", ty, prec, N, N, np, Ng, N, N, 0, 0, 1 if N == 8 else 5)
        for ty in ("saxion", "axion", "axionmod"):
            for N, D, np, Ng in ((12, 12, 1, 1), (8, 16, 2, 1), (12, 18, 3, 2), (16, 8, 1, 1)):
                if not T and ty == "axionmod" and (prec == "double") != (np == 2): continue
                J(np, 1 + np % 2, "expand", ty, prec, N, D, np, Ng, N, D)
    ck.run(jobs)
    first, later = [], []
    rd = [(16, 16, 8, 8), (16, 24, 8, 8), (16, 12, 8, 4), (8, 8, 16, 16), (8, 12, 12, 24), (16, 16, 12, 8), (16, 16, 16, 16)]
    for ty in ("saxion", "axion", "axionmod", "paxion"):
        for prec in ("single", "double"):
            for i, (N, D, M, MT) in enumerate(rd):
                if ty == "paxion" and M > N: continue
                if not T and ty in ("axionmod", "paxion") and (prec == "double") != bool(i % 2): continue
                d = os.path.join(ck.scratch, "red_%s_%s_%d" % (ty, prec, i)); os.makedirs(d + "/m")
                first.append(Job(exe, ["write", ty, prec, N, D, 1, 1, M, MT], env=dict(AXIONS_OUTPUT=d), name="w_%s_%s_%d" % (ty, prec, i)))
                for np in ((1, 2) if not T else (1, 2, 4)):
                    later.append(Job(exe, ["read", ty, prec, N, D, np, 1 + (i + np) % 2, M, MT, (i + np) % 2], np=np, env=dict(AXIONS_OUTPUT=d), name="r_%s_%s_%d_%d" % (ty, prec, i, np)))
    ck.run(first)
    ck.run(later)
    return ck.finish("exploration", exhaustive=True,
        rule="each case is one reduction of a field and its velocity (or of an energy map) holding one Fourier mode each, with a filter that has another factor for every mode; one smoothing of one mode; one expansion from every smaller lattice; or one configuration read on a lattice of another size. Every value of the result, of the source, and the state of the field are compared with the exact result in long double.",
        assumptions=["sides 8 to 16, 1 to 4 ranks; where the new side does not divide the old one the coarse point's value is the documented linear interpolation", "neighbour smoothing is for complex fields, as used", "non-relativistic complex fields (Naxion) are not reduced by the program; expansion exists for complex and angle fields"])
