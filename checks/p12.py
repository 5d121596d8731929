from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    objs = build.objects(skip=["propagator/propagator.cpp"])
    exe = build.harness("spec", ["spec.cpp"], objs, ldextra=["-lm"])
    jobs = []
    for prec in ("single", "double"):
        for np, th in ((1, 1), (1, 3), (2, 2), (4, 1)) + (((8, 1), (4, 3)) if T else ()):
            for n, z in ((8, 8), (8, 16), (16, 8), (12, 12), (4, 4)) + (((16, 16), (24, 24), (8, 32), (20, 12)) if T else ()):
                if n % np or z % np:
                    continue
                jobs.append(Job(exe, ["counts", prec, n, z, np, 1], np=np, threads=th))
            for what in ("p", "ps", "axion", "saxion"):
                jobs.append(Job(exe, [what, prec, 8, 8, np, 1 if T or np * th == 1 else 3], np=np, threads=th))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="evaluation = one field (the cosine or sine of one wave vector of the lattice, or a dense field) whose spectrum is computed and every bin compared with the sum over all modes of its exact transform; or one bin choice whose mode counts are compared; counted once per (spectrum kind, mask, requested parts, bins, precision, size, ranks, threads, mode)",
                     assumptions=["cubic lattices for the spectra (side 8); mode counts also for other depths, wave numbers counted in units of the lattice's own fundamental as the program does", "away from strings: the tabulated correction for points near a string core is not part of the comparison", "the masks are set by hand (labels) or by the radial field; how the red/Gauss/diffusion masks are built is not part of this property"])
