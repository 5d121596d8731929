from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    exe = build.harness("maps", ["maps.cpp"], build.objects(skip=["propagator/propagator.cpp"]))
    jobs = []
    for prec in ("single", "double"):
        for t in ("saxion", "axion"):
            for np, th, n, lz, ng in ((1, 1, 16, 8, 1), (1, 3, 16, 16, 2), (2, 2, 16, 4, 2), (4, 1, 16, 3, 1)) + (((3, 2, 24, 4, 3), (6, 1, 16, 2, 2), (1, 2, 32, 16, 4), (2, 1, 48, 24, 1)) if T else ()):
                jobs.append(Job(exe, ["measure", prec, np, n, lz, ng, t], np=np, threads=th))
            for np, th, n, lz, ng in ((1, 2, 16, 3, 2), (3, 1, 16, 1, 1)) + (((4, 2, 16, 4, 3), (2, 3, 24, 3, 1)) if T else ()):
                jobs.append(Job(exe, ["project", prec, np, n, lz, ng, t], np=np, threads=th))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="evaluation = one measurement with a set of slice maps and projections (every subset of the five kinds; every slice position along z and x) whose datasets are compared value by value with the lattice, with different labels at every point; or the projection of one single point (every point of the lattice) or one dense set under one of three filters; counted once per (field type, precision, halo, ranks, threads, storage order, maps, slice)",
                     assumptions=["slices within the lattice", "a rank's depth is at most its side times the halo depth (slices across z are assembled in the halo)", "the energy in the maps is the one computed by the energy routine on the same field (its values are P09's subject)"])
