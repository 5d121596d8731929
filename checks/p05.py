from vlib import build
from vlib.core import Job
from checks.p03 import SAX, AX, AXMOD, NAX, PAX, RKN4, BASE, lanes

def main(ck):
    exe = build.harness("prop", ["prop.cpp"], build.objects())
    jobs = []
    T = ck.thorough
    types = (SAX, AX, AXMOD, NAX, PAX)
    for prec in ("single", "double"):
        for N in ((8, 16, 24, 32, 40, 48) if T else (8, 16, 24)):
            for np in (1, 2):
                for t in types:
                    if N < max(8, lanes(prec, t) * 2):
                        continue
                    lzs = (1, 2, 3, 4, 5, 6, 7, 8) if T else (1, 2, 3, 4, 6)
                    jobs.append(Job(exe, ["tune", prec, t, N, 4, 1, np, "shapes", 0] + ["%d/%d/1/%d" % (t, lz, th) for lz in lzs for th in ((1, 2) if T else (1,))], np=np, threads=1))
        # runs one after another over one cache
        sets = ["1/4/1/1", "1/2/1/1", "1/4/2/1", "1/4/1/2", "2/4/1/1", "2/4/2/1", "130/4/1/1", "512/4/1/1", "1024/4/1/1"]
        jobs.append(Job(exe, ["tune", prec, 1, 32, 4, 1, 1, "sequences", 2] + sets, threads=1))
        if T:
            jobs.append(Job(exe, ["tune", prec, 1, 32, 4, 1, 1, "sequences", 3] + sets, threads=1, timeout=900))
            jobs.append(Job(exe, ["tune", prec, 1, 32, 4, 1, 2, "sequences", 2] + sets, np=2, threads=1))
        for np in (1, 2):
            for s in (("1/4/1/1", "2/4/2/1", "130/4/1/1", "512/3/1/2", "1024/4/1/1") if T or prec == "single" else ("1/4/1/1", "130/4/1/2")):
                jobs.append(Job(exe, ["tune", prec, 1, 32, 4, 1, np, "files", 0, s], np=np, threads=1))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="each case is one run of the real tuner under a controlled clock, followed by a step compared with the reference: for every shape the tuner can try, a clock under which that shape is "
             "the fastest (ranks disagreeing), every lattice from 1 row and 1 slice on; all sequences of 2 (thorough: 3) runs with different lattice, halo, field type and thread count over one cache; "
             "and every cache file that is absent, unwritable, cut at any byte, has any field replaced by bad values, differs in one key field, or holds any block at or beyond the limits.",
        assumptions=["the lattice sides are 8 to 24 (48 in the thorough tier), 1 and 2 ranks", "a cache entry is for the settings that the code documents in it (ranks, threads, lattice, field type, halo depth)"])
