from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    objs = build.objects(skip=("propagator/propagator.cpp",))
    exe = build.harness("conv", ["conv.cpp"], objs)
    jobs = []
    for prec in ("single", "double"):
        geo = [(16, 4, 1, 1, 1), (16, 3, 2, 2, 2), (16, 5, 3, 1, 3), (16, 2, 1, 3, 1), (24, 2, 2, 1, 2), (16, 1, 1, 2, 2)] + ([(32, 4, 4, 1, 5), (16, 4, 4, 4, 2), (16, 1, 1, 6, 1), (40, 2, 1, 2, 2)] if T else [])
        for i, gg in enumerate(geo):
            for frw in ("1", "0.6", "-1", "0"):
                jobs.append(Job(exe, [prec] + list(gg[:4]) + [frw, 24 if T else 8], np=gg[3], threads=gg[4], name="%s_%d_%s" % (prec, i, frw)))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="every conversion (complex to angle, with and without mending, shifted or not; angle to complex; angle to the non-relativistic complex field; angle to paxion, from a field created as angle and from a "
             "converted one) of fields whose points run through all combinations of 48 phases, 5 moduli and 25 velocities, in both precisions, from folded and plain storage, for four expansion laws, "
             "ranks 1-3 (6), threads 1-3 (5), halo depths 1-3 (4); every value, the type, element size, time and status afterwards compared.",
        assumptions=["no exact zeros of the complex field (the angle is not defined there)", "conversion to the complex non-relativistic field from a field created as complex (one created as an angle has no room for it)"])
