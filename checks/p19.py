from vlib import build
from vlib.core import Job

def main(ck):
    T = ck.thorough
    exe = build.harness("cli", ["cli.cpp"], build.objects(skip=["propagator/propagator.cpp"]))
    jobs = []
    for what, parts in (("single", 8), ("pairs", 16)) + ((("triples", 32),) if T else ()):
        for p in range(parts): jobs.append(Job(exe, [what, str(p), str(parts)], timeout=800))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="evaluation = one command line read by the real parser in a process of its own, every setting it produces (about 150, incl. the cosmology and initial-condition data made from them) compared with a reference table of the options; counted once per command line",
                     assumptions=["numbers are well formed (text that is not a number is not covered)", "options given once", "the tables read from files (rmask file, measfile) are not covered"])
