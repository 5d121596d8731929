from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    objs = build.objects(skip=["propagator/propagator.cpp"])
    exe = build.harness("binner", ["binner.cpp"], objs, ldextra=["-lm"])
    bo = build.compile_one(build.VERIF + "/harness/binner.cpp", ["-O1", "-g1"], ["-I%s/harness" % build.VERIF, "-DSIM", "-fsanitize=thread"])[0]
    sim = build.harness("binnersim", ["ompsim.cpp"], [bo] + objs, opt=("-O1", "-g1"), ldextra=["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free"])
    jobs = []
    for np, th, per in ((1, 1, 3), (1, 2, 3), (1, 4, 2), (2, 1, 2 if T else 1), (3, 2, 1)) + (((1, 3, 4), (4, 1, 1)) if T else ()):
        jobs.append(Job(exe, ["class", np, per], np=np, threads=th))
        jobs.append(Job(exe, ["pad", np, 2 if np < 3 and per > 1 or np == 1 else 2], np=np, threads=th) if np < 3 and (np == 1 or T) else Job(exe, ["large", np, 40], np=np, threads=th))
        jobs.append(Job(exe, ["large", np, 1000], np=np, threads=th))
    for prec in ("single", "double"):
        for np, th, n, lz, ng in ((1, 1, 16, 16, 1), (1, 3, 16, 8, 2), (2, 2, 16, 4, 2), (4, 1, 16, 4, 3), (2, 1, 16, 4, 1)) + (((1, 2, 32, 8, 4), (3, 2, 24, 8, 2)) if T else ()):
            jobs.append(Job(exe, ["meas", np, prec, n, lz, ng], np=np, threads=th))
    for k in range(3):
        jobs.append(Job(sim, ["large", 1, 20 + k], env=dict(OMP_NUM_THREADS=str(2 + k)), name="sim%d" % k))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="evaluation = one data set (all tuples over an alphabet of centres, points on both sides of the first and last edge, negative values, infinities and NaN, distributed over the ranks; contiguous or in padded rows; also sets of some thousand values) binned by the real class and compared bin by bin with the definition; or one measurement of a field whose written histograms (angle, radius, log angle squared, density contrast) are compared with the field; counted once per (type, bins, ranks, threads, set)",
                     assumptions=["data sets whose range is below 1e-10 have no histogram (the program says so)", "values closer to an edge than the rounding of the filter may fall on either side of it", "all ranks hold the same number of values, as the program's fields do"])
