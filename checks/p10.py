from vlib import build
from vlib.core import Job

def jobs(ck, exe, sim, mode):
    T, out = ck.thorough, []
    for prec in ("single", "double"):
        for N, Lz, Ng, np, th in ((8, 4, 1, 1, 1), (8, 4, 2, 1, 3), (8, 3, 1, 2, 2), (16, 4, 3, 1, 2), (8, 1, 1, 3, 1), (8, 2, 2, 2, 1), (24, 2, 1, 2, 2)) + (
                ((8, 6, 4, 1, 5), (16, 2, 1, 4, 2), (40, 3, 1, 1, 4), (16, 5, 5, 1, 2), (8, 1, 1, 6, 1)) if T else ()):
            out.append(Job(exe, [mode, prec, N, Lz, Ng, np, 6 if T else 3, 0, 0, 0, 1], np=np, threads=th))
        # every assignment of K phases to the corners of a cube
        K = 5
        n = K ** 8
        parts = 8 if prec == "single" else 4
        for i in range(parts):
            out.append(Job(exe, [mode, prec, 8, 8, 1, 1, 0, K, n * i // parts, n * (i + 1) // parts, 8 if T else 1], threads=1, name="cubes_%s_%d" % (prec, i)))
        out.append(Job(exe, [mode, prec, 8, 4, 2, 2, 0, 3 if not T else 4, 0, (3 if not T else 4) ** 8, 8], np=2, threads=1, name="cubes2_" + prec))
        if sim:
            for th in (2, 3):
                out.append(Job(sim, [mode, prec, 8, 3, 1, 1, 1, 0, 0, 0, 1], env=dict(OMP_NUM_THREADS=str(th)), name="sim_%s_t%d" % (prec, th)))
    return out

def main(ck, mode="detect"):
    hot = {s: ("-O1", "-g1", "-fsanitize=thread") for s in ("strings/strings.cpp", "strings/stringXeon.cpp", "strings/length.cpp")}
    skip = ("propagator/propagator.cpp",)
    sobjs, objs = build.together(lambda: build.objects(per_file=hot, skip=skip), lambda: build.objects(skip=skip))
    exe = build.harness("strings", ["strings.cpp"], objs)
    sim = build.harness("stringssim", ["strings.cpp", "ompsim.cpp"], sobjs, extra=["-DSIM"], ldextra=["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free"])
    ck.run(jobs(ck, exe, sim, mode))
    return ck.finish("exploration", exhaustive=True,
        rule="all 5^8 assignments of five phases to the eight corners of a cube, as the cubes of one lattice after another (at cycling offsets; thorough: at all eight), each field compared mark by mark "
             "with the winding numbers in long double, in single and double precision, from plain and folded storage; further fields with one random value per point over ranks 1-3 (6), "
             "threads 1-3 (5) and halo depths 1-3 (5); the parallel regions also run under the controlled OpenMP runtime with every access checked for conflicts." if mode == "detect" else
             "all 5^8 assignments of five phases to the eight corners of a cube (cubes with two, four and six piercings included), as the cubes of one lattice after another at cycling offsets "
             "(thorough: all eight), plus fields with one random value per point over ranks, threads and halo depths; length, its local part, and the velocity and boost sums compared with the "
             "formulas in long double; the parallel regions also run under the controlled OpenMP runtime with every access checked for conflicts. Fields without strings count as trivial.",
        assumptions=["phases at five directions per cube corner with varying moduli, no zero on a link (the property excludes them)", "complex field in position space, lattice not reduced"])
