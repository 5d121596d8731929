import os
from vlib import build
from vlib.core import Job

PQ = dict(PQ1=1024, PQ2=2048, PQ3=512)
QCD = dict(QCD0=1, QCD1=2, QCDV=4, QCD2=8, QCDL=16)

def main(ck):
    # uninitialised variables get a fixed pattern, so that using one shows
    objs = build.objects(skip=["propagator/propagator.cpp"], per_file={"cosmos/cosmos.cpp": ("-O1", "-ftrivial-auto-var-init=pattern")})
    exe = build.harness("cosmo", ["cosmo.cpp"], objs)
    jobs = [Job(exe, ["laws", PQ[p] + QCD[q]], threads=1, name="laws_%s_%s" % (p, q)) for p in PQ for q in QCD if ck.thorough or (p, q) in (("PQ1", "QCD1"), ("PQ2", "QCD1"), ("PQ3", "QCD1"), ("PQ1", "QCDV"), ("PQ2", "QCD0"), ("PQ1", "QCD2"), ("PQ3", "QCDL"))]
    f = os.path.join(build.REPO, "include/cosmos/jaxi-cosmo.txt")
    fas = ["1e12", "5e10", "3e9", "1e8", "2e13"] + (["1e%d" % k for k in (7, 9, 10, 11, 14, 15, 16, 17)] if ck.thorough else [])
    jobs += [Job(exe, ["table", f, a], threads=1, env=dict(JAXIONS_DIR=build.REPO), name="table_" + a) for a in fas]
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="evaluation = one time of one cosmology (all combinations of expansion exponent, late-time term, mass exponents, cut and restoration, mass scale, saxion mass law and potential; times on, one to three representable numbers beside, and around every boundary, and in every piece), "
                     "at which every function of the background and of a field is compared with the configured law in long double; or one pair of times whose integrals are compared with a quadrature of the law; or one row of the tabulated cosmology. The time 1 and empty intervals count as trivial.",
                     assumptions=["integrals: power-law expansion, mass never restored (as the code states)", "tabulated cosmology: times above 0.02 (derivatives: 0.1), where the program's fixed difference steps are meaningful", "the shift for the second PQ potential is a fit, compared within 0.2 %"])
