from vlib import build
from vlib.core import Job
from checks.p03 import SAX, AX, AXMOD, NAX, PAX, RKN4, BASE, SPEC, FSPEC, side

# every instantiation of the vectorised kernels that differs in structure
POTS = {SAX: [1024 + 2, 1024 + 8 + 16384, 1024 + 1 + 4096, 1024 + 32 + 8192, 1024 + 2 + 32768], AX: [1024 + 2, 1024 + 1, 1024 + 16], AXMOD: [1024 + 2, 1024 + 32], NAX: [1024 + 2], PAX: [1024 + 2]}

def main(ck):
    # race detection: the code that runs inside the parallel regions of a time step, instrumented
    hot = {"propagator/propagator.cpp": ("-O1", "-g1", "-fsanitize=thread"), "scalar/folder.cpp": ("-O1", "-g1", "-fsanitize=thread"),
           "scalar/scalarField.cpp": ("-O1", "-g1", "-fsanitize=thread")}
    sobjs, objs = build.together(lambda: build.objects(per_file=hot), build.objects)
    exe = build.harness("prop", ["prop.cpp"], objs)
    sim = build.harness("propsim", ["prop.cpp", "ompsim.cpp"], sobjs, extra=["-DSIM"], ldextra=["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free"])
    jobs = []
    T = ck.thorough
    for prec in ("single", "double"):
        for t in (SAX, AX, AXMOD, NAX, PAX):
            pots = POTS[t] if T else POTS[t][:2]
            for Ng in ((1, 2, 3, 4, 5) if T else (1, 2, 4)):
                N = side(prec, t, Ng)
                big = N > 40
                for np in ((1, 2, 3, 4, 6) if T else (1, 2, 3)):
                    Lg = 12 if Ng <= 2 else 4 * Ng if np != 3 else 6 * Ng
                    if np == 6:
                        Lg = 6 * Ng
                    Lz = Lg // np
                    if Lz < Ng:
                        continue
                    for th in ((1, 2, 3, 5) if T else ((1, 3) if np == 1 else (1,) if np == 3 else (2,))):
                        if np * th > 8:
                            continue
                        if big and not T and (np, th) not in ((1, 3), (2, 2)):
                            continue
                        jobs.append(Job(exe, ["indep", prec, t, N, Lz, Ng, np, RKN4 | BASE, 0.03, 2 if Ng < 3 else 1,
                                              0 if big and not T else 2 if (T and not big) else 1, 16 if np <= 2 and (Ng == 2 or T) else 1] + (pots if Ng <= 2 else pots[:1]), np=np, threads=th))
            # interleavings of threads
            for Ng, Lz, th in ((1, 4, 2), (2, 5, 3)) + (((1, 3, 4), (3, 6, 2), (2, 2, 2)) if T else ()):
                jobs.append(Job(sim, ["indep", prec, t, side(prec, t, Ng), Lz, Ng, 1, RKN4 | BASE, 0.03, 1, 1, 1] + (POTS[t] if T or Ng == 1 else pots[:1]), threads=1,
                                env=dict(OMP_NUM_THREADS=str(th)), name="sim_%s_%s_Ng%d_t%d" % (prec, t, Ng, th)))
        for t in (SAX, AX):
            for np, th in ((1, 1), (1, 3), (2, 2)) + (((4, 1), (4, 2)) if T else ()):
                jobs.append(Job(exe, ["indep", prec, t, 8, 8 // np, 1, np, RKN4 | SPEC, 0.03, 2, 0, 1] + POTS[t][:3 if T else 1], np=np, threads=th))
            jobs.append(Job(sim, ["indep", prec, t, 8, 8, 1, 1, RKN4 | SPEC, 0.03, 1, 0, 1] + POTS[t][:1], env=dict(OMP_NUM_THREADS="3"), name="sim_spec_%s_%s" % (prec, t)))
    for np, th in ((1, 1), (1, 3), (2, 2), (4, 1)):
        jobs.append(Job(exe, ["indep", "single", AX, 8, 8 // np, 1, np, RKN4 | FSPEC, 0.03, 2, 0, 1, 1026], np=np, threads=th))
    jobs.append(Job(sim, ["indep", "single", AX, 8, 8, 1, 1, RKN4 | FSPEC, 0.03, 1, 0, 1, 1026], env=dict(OMP_NUM_THREADS="3"), name="sim_fspec"))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="each case is one run of 1-2 steps from one global field, for one rank count, thread count, block shape and message progress mode, compared at every point with the same reference "
             "(so all agree with each other); block shapes are all of y x z (thorough) or those near the ends, the divisors and the middle (quick); message modes are all 16 combinations of early "
             "and late capture/delivery per direction. Thread interleavings: the real kernels run under a controlled OpenMP runtime, in several thread orders, with every access checked for "
             "conflicts; no conflict means that all interleavings of the region are equivalent to the ones run.",
        assumptions=["1-4 ranks (6 in the thorough tier), 1-5 threads, lattices of the smallest admissible side", "accesses are observed in the instrumented library sources of the propagators, the field and the folder, not inside FFTW and MPI"])
