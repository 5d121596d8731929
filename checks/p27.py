from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    exe = build.harness("track", ["track.cpp"], build.objects())
    jobs = []
    J = lambda np, th, *a: jobs.append(Job(exe, list(a), np=np, threads=th))
    shapes = [(8, 8, 1, 1), (8, 8, 2, 2), (8, 8, 4, 1), (8, 12, 3, 1)]
    if T: shapes += [(16, 8, 1, 2), (16, 16, 4, 1), (8, 24, 3, 2)]
    for prec in ("single", "double"):
        for k, (N, D, np, Ng) in enumerate(shapes):
            J(np, 1 + (k + 1) % 2 if np < 3 else 1, "track", prec, N, D, np, Ng)
            for th in ((1, 3) if np == 1 else (1,)): J(np, th, "group", prec, N, D, np, Ng)
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="each history of searches and readings (a storage order per step, points above the thresholds of field and velocity) is executed and the printed file is compared, record by record, with the history of a model that is told which points were put above the thresholds; each pattern of dense points is searched and grouped and the labels are compared with the connected components", assumptions=[
        "labels of groups are not merged across ranks by the program; connection is judged within a rank", "the total limit is at least the number of ranks"])
