import os, shutil, glob
from vlib import build
from vlib.core import Job

LIST = "ct meas map mask\n0.82 128 0 0\n0.9 128 0 0\n1.0 129 0 0\n1.05 128 0 0\n1.2 128 0 0\n1.3 128 0 0\n"
# name, options, initial conditions, processes, threads, dump, list of measurements or None
def configs(T):
    G = "--size 16 --depth %d --zgrid %d "
    P = "--prec %s --prop rkn4 --steps %s --qcd 7 --lsize 3 --zf %s --nologmpi --verbose 0 --fftplan 64 --dump %d --meas %d --p3D 2 %s "
    S, N, A, R = "smooth", "noise", "axion", "rough"
    def c(name, np, th, phys, ic, prec="single", wdz="2.0", zf="1.3", dump=1, meas=128, lap=1, lst=None):
        return (name, (G % (16 // np, np) + P % (prec, "1000 --wDz " + wdz if wdz else "9", zf, dump, meas, "--lap %d" % lap if lap else "") + phys).split(), ic, np, th, dump, lst)
    return [c("saxion-msa", 1, 2, "--msa 1 --notheta", S),
            c("saxion-llcf-dbl-np2", 2, 1, "--llcf 500 --notheta", S, prec="double", lap=2),
            c("saxion-spec-np2", 2, 2, "--msa 1 --notheta --spec", S, lap=0),
            c("saxion-gam", 1, 1, "--msa 1 --notheta --gam 0.3 --frw 1.5", S, prec="double"),
            c("saxion-fixed-step", 2, 1, "--msa 1 --notheta", S, wdz=None),
            c("saxion-dump3", 1, 2, "--msa 1 --notheta", S, dump=3),
            c("saxion-list", 1, 1, "--msa 1 --notheta", S, lst=LIST),
            c("axion", 1, 2, "--ftype axion --msa 1", A, wdz="3.0", zf="1.5"),
            c("axion-np2", 2, 1, "--ftype axion --msa 1", A, lap=3, wdz="5.0", zf="1.5", prec="double"),
            c("axion-sat", 1, 1, "--ftype axion --msa 1 --Rc 0.9", A, wdz="3.0", zf="1.5"),
            c("saxion-transition", 1, 2, "--msa 1 --sst0 0", N),
            c("saxion-transition-gam", 2, 1, "--msa 1 --sst0 0 --dwgam 0.5 ", N),
            c("saxion-transition-strings", 2, 1, "--msa 1 --sst0 0", R),
            c("saxion-transition-sst2", 1, 1, "--msa 1 --sst0 2", N)]

def main(ck):
    T = ck.thorough
    objs = build.objects()
    vo = build.compile_one(os.path.join(build.REPO, "test/vaxions.cpp"), ["-O1"], ["-Dmain=vaxMain"])[0]
    crash, vax, same = build.together(
        lambda: build.harness("crash", ["crash.cpp"], objs, ldextra=["-rdynamic", "-ldl", "-Wl,--wrap=exit"]),
        lambda: build.harness("vaxrun", ["vaxrun.cpp"], objs + [vo], ldextra=["-Wl,--wrap=fopen"]),
        lambda: build.harness("h5same", ["h5same.cpp"], []))
    jobs = []
    for t in range(3):
        for prec in ("single", "double"):
            for rst in (0, 1):
                for np in (1, 2):
                    jobs.append(Job(crash, [t, prec, 16, 4, rst, 1 if T else 16, np], np=np, name="crash_%d_%s_%d_%d" % (t, prec, rst, np)))
    cs = configs(T)
    D = lambda name, run: os.path.join(ck.scratch, name, run, "m")
    def job(c, run, extra, fresh=True, **env):
        name, com, ic, np, th, dump, lst = c
        d = D(name, run)
        os.makedirs(d, exist_ok=True)
        if fresh:
            shutil.copy(sorted(f for f in glob.glob(D(ic, "ic") + "/axion.000*"))[-1], d + "/axion.00000")
        setup = (lambda x: open(x + "/measfile.dat", "w").write(lst)) if lst else None
        return Job(vax, com + extra, np=np, threads=th, name="%s_%s%s" % (name, run, "" if fresh else "_restart"), setup=setup, env=dict(AXIONS_OUTPUT=d, **env))
    I = "--size 16 --depth 16 --zgrid 1 --prec double --prop rkn4 --qcd 7 --lsize 3 --msa 1 --nologmpi --verbose 0 --fftplan 64 --meas 128 --ctype smooth --sIter 8 --zi 0.7 --kcr 1.0 --mode0 0 "
    for ic, opt in (("smooth", "--steps 0 --p3D 1"), ("noise", "--smvar axnoise --steps 0 --p3D 1"), ("rough", "--sIter 7 --kcr 1.0 --steps 0 --p3D 1"), ("axion", "--smvar axnoise --steps 1000 --wDz 1.5 --sst0 1 --zf 0.9 --p3D 2")):
        os.makedirs(D(ic, "ic"))
        jobs.append(Job(vax, (I + opt).split(), threads=2, name=ic + "_ic", env=dict(AXIONS_OUTPUT=D(ic, "ic"))))
    ck.run(jobs)
    if ck.fails:
        return ck.finish("exploration")
    ck.run([job(c, "base", ["--index", "0"]) for c in cs])
    steps = {c[0]: len([l for l in open(os.path.join(ck.scratch, c[0], "base", "sample.txt"))]) - 1 for c in cs}
    first, second, third, cmp = [], [], [], []
    for c in cs:
        n = steps[c[0]]
        for k in range(1, n):
            run = "stop%d" % k
            first.append(job(c, run, ["--index", "0"], VH_STOP=str(k), VH_STOPRANK=str(k % c[3])))
            second.append((c, run, {}))
            cmp.append((c, run))
            if k < n - 1 and (T or k % 3 == 1):   # two stops
                run2 = "stop%d+1" % k
                first.append(job(c, run2, ["--index", "0"], VH_STOP=str(k), VH_STOPRANK="0"))
                second.append((c, run2, dict(VH_STOP="1", VH_STOPRANK="0")))
                third.append((c, run2, {}))
                cmp.append((c, run2))
    ck.run(first)
    ck.run([job(c, run, ["--restart"], fresh=False, **e) for c, run, e in second])
    ck.run([job(c, run, ["--restart"], fresh=False, **e) for c, run, e in third])
    ck.run([Job(same, ["1e-4", 1 if c[5] == 1 else 0, "restart-%s:%s" % (c[0], run), D(c[0], "base"), D(c[0], run)], name="cmp_%s_%s" % (c[0], run)) for c, run in cmp])
    return ck.finish("exploration", rule="evaluation = one file of a stopped-and-restarted run of the real program (every step as stopping point, once or twice) compared object by object with the run that was never stopped (key: configuration, stopping points, file), or one image of the disk that a crash while a configuration is written can leave (key: field, precision, restart or numbered file, processes, point of the write history), on which every file taken as a complete configuration must read back as the old or the new state",
                     exhaustive=True, assumptions=["side 16, up to 12 steps", "a crash of the processes: every prefix of the recorded system calls, the last write torn at multiples of 16 bytes (quick) or every byte (thorough); reordered writes of a power failure are not enumerated", "quantities that describe the run and not the field (wall time, step of this run, order of the string plaquettes) are not compared", "the random seed is fixed"])
