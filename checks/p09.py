from vlib import build
from vlib.core import Job

PQ = [1024, 2048, 512]
SAX = [p + q for p in PQ for q in (1, 2, 4, 8, 32)]
AX = [1024 + q for q in (1, 2, 16, 32)]

def main(ck):
    T = ck.thorough
    hot = {s: ("-O1", "-g1", "-fsanitize=thread") for s in ("energy/energy.cpp", "energy/energyXeon.cpp", "energy/energyThetaXeon.cpp", "energy/energyPaxionXeon.cpp", "strings/length.cpp")}
    skip = ("propagator/propagator.cpp",)
    sobjs, objs = build.together(lambda: build.objects(per_file=hot, skip=skip), lambda: build.objects(skip=skip))
    exe = build.harness("energy", ["energy.cpp"], objs)
    sim = build.harness("energysim", ["energy.cpp", "ompsim.cpp"], sobjs, extra=["-DSIM"], ldextra=["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free"])
    jobs = []
    for prec in ("single", "double"):
        for t, pots in (("saxion", SAX), ("axion", AX), ("axionmod", AX[:2]), ("paxion", [1024 + 2])):
            geo = [(16, 4, 1, 1, 1), (16, 3, 2, 2, 2), (16, 5, 3, 1, 3), (16, 2, 1, 3, 1), (24, 2, 2, 1, 2)] + ([(32, 4, 4, 1, 5), (16, 4, 4, 4, 2), (16, 1, 1, 6, 1), (40, 2, 1, 2, 2)] if T else [])
            for i, (N, Lz, Ng, np, th) in enumerate(geo):
                frw = ("1", "0.6", "-1")[i % 3]
                dl = (1 if T or t != "saxion" else 5) if i == 0 else (37 if not T else 3)
                jobs.append(Job(exe, [prec, t, N, Lz, Ng, np, frw, dl] + pots, np=np, threads=th, name="%s_%s_%d" % (prec, t, i)))
            jobs.append(Job(sim, [prec, t, 16, 2, 1, 1, "1", 0] + pots[:2], env=dict(OMP_NUM_THREADS="3"), name="sim_%s_%s" % (prec, t)))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="every field type that reports energies x precision x potential x kind of result (averages, map, masked, and their combinations) x halo depth 1-3 (4) x ranks 1-3 (6) x threads 1-3 (5), "
             "each with a field that differs at every point and from folded and plain storage; and one perturbed point at each point of a lattice; every entry and every map point compared with "
             "the density in long double; string energies likewise; the parallel regions also run under the controlled OpenMP runtime with every access checked for conflicts.",
        assumptions=["the densities are those written beside the kernels (physical units, neighbour differences); NAXION has no energy implementation", "low-memory fields are excluded (the library refuses them)"])
