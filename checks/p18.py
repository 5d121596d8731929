from vlib import build
from vlib.core import Job
WRAP = ["malloc", "free", "calloc", "realloc", "posix_memalign", "memalign", "aligned_alloc", "_Z10alignAllocPPvmm", "_Z10trackAllocPPvm"]

def main(ck):
    T = ck.thorough
    exe = build.harness("mem", ["mem.cpp", "fence.cpp"], build.objects(), ldextra=["-Wl," + ",".join("--wrap=" + w for w in WRAP)])
    jobs = [Job(exe, ["seq", 6 if T else 5])]
    for prec in ("single", "double"):
        for np, N, Lz, Ng in ((1, 16, 16, 1), (2, 16, 8, 1), (1, 32, 6, 2)):
            small = np == 1 and N == 16
            for t, parts in (("1", 8), ("2", 5), ("130", 1), ("1024", 1), ("10001 10002 10130 10257 10258 10006 2048", 2)):
                depth = 3 if T and small else 2 if T or small and (t in "1 2" or prec == "single") else 1
                if depth == 1: parts = 1
                if depth == 3: parts *= 8
                for p in range(parts): jobs.append(Job(exe, ["life", prec, N, Lz, Ng, np, depth, p, parts, "-"] + t.split(), np=np, threads=2, timeout=850))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
                     rule="evaluation = one sequence of allocations and releases (totals and list of blocks read from the log after it), or one life of a field: created, a sequence of the library's operations applicable to it, deleted, with the totals of the log compared with the blocks alive after every step and every block ending at a page that may not be touched (released blocks stay forbidden); counted once per sequence with all its operations applicable",
                     assumptions=["operations on a field are the documented ones in their supported settings (conversions back to complex only for fields created complex, spectra and gravity on cubic lattices)", "writing before a block is found when the block is released, reading before a block only if it leaves the page", "overruns from the field into the velocity, which share a block for real fields, are not seen", "blocks of the C++ library under 256 bytes are not watched", "two ranks and two halo planes: shorter sequences"])
