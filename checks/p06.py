from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    hot = {s: ("-O1", "-g1", "-fsanitize=thread") for s in ("scalar/mendTheta.cpp", "scalar/mendThetaXeon.cpp")}
    skip = ("propagator/propagator.cpp",)
    sobjs, objs = build.together(lambda: build.objects(per_file=hot, skip=skip), lambda: build.objects(skip=skip))
    exe = build.harness("mend", ["mend.cpp"], objs)
    sim = build.harness("mendsim", ["mend.cpp", "ompsim.cpp"], sobjs, extra=["-DSIM"], ldextra=["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free"])
    jobs = []
    for prec in ("single", "double"):
        #       N  Lz Ng np th frw lines columns zlines deltas rough
        geo = [(16, 16, 1, 1, 2, "1", 256, 4096 if T or prec == "single" else 512, 0, 0, 20), (16, 8, 2, 1, 1, "0.6", 20, 20, 256, 1 if T else 3, 20), (16, 3, 1, 2, 3, "-1", 30, 30, 64, 1, 50),
               (16, 1, 1, 3, 1, "0.6", 30, 30, 8, 1, 50), (24, 2, 2, 2, 2, "1", 20, 20, 16, 5, 20), (32, 4, 3, 1, 4, "0", 20, 20, 16, 37, 20)]
        if T: geo += [(16, 2, 2, 4, 2, "1", 512, 2000, 256, 1, 500), (40, 4, 1, 1, 5, "0.6", 100, 100, 16, 1, 100), (16, 1, 1, 6, 2, "1", 300, 300, 64, 1, 200), (64, 2, 1, 2, 2, "-1", 50, 50, 16, 61, 50)]
        for i, gg in enumerate(geo):
            for t in (("axion",) if i % 3 or not T else ("axion", "axionmod")):
                jobs.append(Job(exe, [prec, t] + list(gg[:4]) + list(gg[5:]), np=gg[3], threads=gg[4], name="%s_%s_%d" % (prec, t, i)))
        jobs.append(Job(sim, [prec, "axion", 16, 3, 1, 1, "1", 2, 2, 4, 97, 4], env=dict(OMP_NUM_THREADS="3"), name="sim_" + prec))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="smooth angle fields over several periods with all 2^16 patterns of shifted points along a line in x (one per line of the lattice) and along y (one per slice), all patterns of shifted slices (2^8), "
             "and every single point shifted by one to three periods: the smooth field must come back up to one global multiple of the period; and rough fields, compared point by point with the documented "
             "scans. Over both precisions, ranks 1-3 (6), threads 1-4, halo depths 1-3, several expansion laws; the parallel regions also run under the controlled OpenMP runtime with every access checked for conflicts.",
        assumptions=["the auxiliary array holds the threads' scratch lines (threads <= (Lz+2Ng) N / 4 lanes; the library only prints a message otherwise)",
                     "rough fields with a difference within 1e-4 of half a period are skipped"])
