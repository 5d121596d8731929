from vlib import build
from vlib.core import Job
SAX, AX, AXMOD, NAX, PAX = 1, 2, 130, 512, 1024
LEAP, OM2, OM4, RKN4, MLEAP, BASE, SPEC, FSPEC = 16, 32, 64, 128, 256, 1, 2, 4

def lanes(prec, t):
    b = 8 if prec == "single" else 4
    return b // 2 if t in (SAX, NAX) else b

def side(prec, t, Ng):
    return max(8, 2 * Ng * lanes(prec, t))

def main(ck):
    objs = build.objects(per_file={"propagator/propagator.cpp": ("-O1", "-DUSE_PROP_LEAP", "-DUSE_PROP_MLEAP", "-DUSE_PROP_OM2")} if ck.thorough else {})
    exe = build.harness("prop" + ("all" if ck.thorough else ""), ["prop.cpp"], objs)
    jobs = []
    for prec in ("single", "double"):
        for t in (SAX, AX, AXMOD, NAX, PAX):
            for Ng in (1, 2, 3, 4, 5):
                N = side(prec, t, Ng)
                big = N > 40
                full = int(Ng <= 2 or ck.thorough and not big)
                jobs.append(Job(exe, ["step", prec, t, N, 2 * Ng, Ng, 1, RKN4 | BASE, full, 0, 1 if big and not ck.thorough else 4, 0.03]))
                if ck.thorough and not big and t in (SAX, AX, AXMOD):
                    for i in (LEAP, MLEAP, OM2, OM4):
                        jobs.append(Job(exe, ["step", prec, t, N, 2 * Ng, Ng, 1, i | BASE, full, 0, 4, 0.03]))
            jobs.append(Job(exe, ["step", prec, t, side(prec, t, 1), 7, 1, 1, RKN4 | BASE, 1, 0, 4, 0.02, 3]))
            jobs.append(Job(exe, ["step", prec, t, side(prec, t, 2), 2, 2, 1, RKN4 | BASE, 1, 0, 4, 0.02, 2]))
            jobs.append(Job(exe, ["step", prec, t, side(prec, t, 1), 4, 1, 1, RKN4 | BASE, 1, 0, 4, 0]))
        for Ng, Lz, np in ((1, 2, 1), (2, 4, 1), (3, 3, 2), (5, 10, 1)):
            jobs.append(Job(exe, ["low", prec, SAX, side(prec, SAX, Ng), Lz, Ng, np, RKN4 | BASE, int(Ng <= 2 or ck.thorough), 0, 4, 0.03], np=np))
        for t in (SAX, AX):
            jobs.append(Job(exe, ["step", prec, t, 8, 8, 1, 1, RKN4 | SPEC, 1, 0, 4, 0.03]))
            jobs.append(Job(exe, ["step", prec, t, 8, 4, 1, 2, RKN4 | SPEC, 1, 0, 4, 0.03, 2], np=2))
    jobs.append(Job(exe, ["step", "single", AX, 8, 8, 1, 1, RKN4 | FSPEC, 1, 0, 4, 0.03]))
    jobs.append(Job(exe, ["step", "single", AX, 8, 4, 1, 2, RKN4 | FSPEC, 1, 0, 4, 0.03, 2], np=2))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True,
        rule="each case is one run of 1-3 steps of the real propagator compared at every point with the integrator's formulas in long double on the periodic lattice: "
             "every field type x precision x Laplacian order 1-5 x every instantiated potential/evolution/damping variant (all at orders 1 and 2; thorough: at all orders and for all "
             "integrators, each compiled in) x four cosmologies (growth of R, lambda and axion mass laws, mass saturation reached within the step, decay time), base, spectral, "
             "full spectral and low memory propagators, a zero step, and lattices one or a few ghost depths deep. Steps with dz=0 count as trivial.",
        assumptions=["fields carry pseudo-random labels, one per point, component and array, so that any wrong neighbour, lane or coefficient changes the result far above the tolerance",
                     "lattice sides 8 to 80 (the smallest the vector layout admits)", "background functions R, lambda, m_A are taken from the library (checked by P16)",
                     "the spectral propagators' angular evolution, the complex field's full spectral propagator and the double precision full spectral one are not implemented in the code and left out"])
