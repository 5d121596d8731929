import os, re
from vlib import build
from vlib.core import Job

SAX, AX, PAX = 1, 2, 1024

def main(ck):
    objs = build.objects(skip=("propagator/propagator.cpp",))
    exe = build.harness("p02", ["p02.cpp"], objs)
    jobs, split = [], False
    for prec in ("single", "double"):
        for t in (SAX, AX, PAX):
            for np in (1, 2, 3, 4):
                for Ng, Lz in (((1, 4), (2, 2), (3, 5)) if ck.thorough else ((2, 3),)) if np < 3 else ((2, 3),):
                    if np > 2 and prec == "single" and t != SAX and not ck.thorough:
                        continue
                    jobs.append(Job(exe, [prec, t, 8, Lz, Ng, np, 0, 1 if np < 3 or (np < 4 and ck.thorough) else 0], np=np))
    # the same with halos split into several messages: the size above which a halo is split is a literal of about
    # 2^31 bytes; a copy of the source in the scratch directory gets it from the harness instead
    src = open(os.path.join(build.REPO, "lib/scalar/scalarField.cpp")).read()
    if re.search(r"\b2147483584\b", src):
        split = True
        os.makedirs(build.BUILD + "/gen", exist_ok=True)
        g = build.BUILD + "/gen/scalarField.cpp"
        new = "#include <cstddef>\nextern size_t vh_chunk;\n" + re.sub(r"\b2147483584\b", "vh_chunk", src)
        if not os.path.exists(g) or open(g).read() != new:
            open(g, "w").write(new)
        o = build.compile_one(g, ["-O1"], [])[0]
        o2 = [x for x in objs if "scalarField_cpp" not in os.path.basename(x)] + [o]
        exe2 = build.harness("p02split", ["p02.cpp"], o2)
        for prec, t, Ng in (("single", SAX, 2), ("double", AX, 2), ("double", PAX, 3)):
            tot = 64 * Ng * (4 if prec == "single" else 8) * (2 if t == SAX else 1)
            for ch in (tot, tot // 2, tot // 3 // 8 * 8, tot // 7 // 4 * 4):
                for np in (1, 2):
                    jobs.append(Job(exe2, [prec, t, 8, 3, Ng, np, ch, 0], np=np))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, coverage=dict(split_messages=split),
        rule="each case is one exchange: protocol (combined or separate start of sends and receives, both orders; full exchange) x array x depth x the choice, "
             "per rank and direction, of capturing the send buffer at start or at the wait and of delivering at once or only at the wait (all combinations on 1 and 2 "
             "ranks, uniform and one-rank-deviates on more). All planes are labelled per point, array and exchange; all cases are distinct and non-trivial.",
        assumptions=["real Open MPI underneath, controlled at the request level; lattices of side 8", "splitting is exercised by lowering the split size in a scratch copy of the source"])
