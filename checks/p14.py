import os
from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    objs = build.objects(skip=("propagator/propagator.cpp",))
    exe = build.harness("conf", ["conf.cpp"], objs)
    nv = 162 if not T else 648
    ranks = (1, 2, 3) if not T else (1, 2, 3, 4, 6)
    jobs, later = [], []
    for t in range(4):
        for prec in ("single", "double"):
            for i, np in enumerate(ranks):
                d = os.path.join(ck.scratch, "conf_%d_%s_%d" % (t, prec, np))
                os.makedirs(d + "/m")
                for k in range(nv):
                    if k % 17 == 5:
                        os.makedirs(d + "/r%d" % k)
                e = dict(AXIONS_OUTPUT=d)
                jobs.append(Job(exe, ["w", t, prec, np, 1 + (t + i) % 2, nv], np=np, threads=1 + i % 2, env=e, name="w_%d_%s_%d" % (t, prec, np)))
                for j, nr in enumerate(ranks if T else (ranks[(i + t + len(prec) % 2) % 3],)):
                    later.append(Job(exe, ["r", t, prec, nr, 1 + (t + j) % 2, nv, 16 if T else 3], np=nr, env=e, name="r_%d_%s_%d_%d" % (t, prec, np, nr)))
    ck.run(jobs)
    ck.run(later)
    return ck.finish("exploration", exhaustive=True, rule="evaluation = one configuration written (parameters chosen by exhausting potential x damping x evolution x cosmology x kind of initial condition, folded or not, restart or numbered file, in configuration or momentum space) whose raw HDF5 data are compared with the field, or one such file read back by another number of processes / layers of ghosts / precision with one parameter at a time (or none) given on the command line, every field value and every stored parameter compared; counted once per (file, reader set-up, overriding option)",
                     assumptions=["side 16 and depth 12", "field types that can be read back (saxion, axion, modular axion, paxion); a Naxion file is only written", "parameters the format does not store (dectime, fA, gravity constants) and CONF_AXITON / VILGORK / VILGORS names are excluded", "conversion, expansion or reduction on reading belong to P07 and P23"])
