"""Runs the jobs of a check, merges what they report, writes evidence, decides the exit code."""
import os, sys, json, time, subprocess, tempfile, shutil, fnmatch, threading, signal, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import build
from .build import VERIF, REPO, BuildError

ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm_rsh_agent="/bin/false",
           OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_btl_base_warn_component_unused="0",
           OMPI_MCA_orte_tmpdir_base="", LC_ALL="C")
NCPU = os.cpu_count() or 4


class Job:
    """One process (or one mpirun of np processes) of the harness. args go to the harness untouched."""
    def __init__(self, exe, args, np=1, threads=1, env=None, timeout=240, name=None, setup=None, after=None, expect_rc=0):
        self.exe, self.args, self.np, self.threads = exe, [str(a) for a in args], np, threads
        self.env, self.timeout = dict(env or {}), timeout
        self.name = name or "np%d_t%d_%s" % (np, threads, "_".join(self.args))
        self.setup, self.after, self.expect_rc = setup, after, expect_rc


class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.fails = []          # (key, detail, job)
        self.assumptions = []
        self.lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.slots = threading.Semaphore(NCPU)
        self.slotlock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.counters[k] = self.counters.get(k, 0) + v

    def fail(self, key, detail, job=None):
        with self.lock:
            self.fails.append((key, detail, job))

    def add(self, evals, distinct, samples=()):
        with self.lock:
            self.evals += evals
            self.distinct += distinct
            self.samples += list(samples)

    # -- jobs ---------------------------------------------------------------------------------------
    def cmd(self, job):
        if job.np > 1:
            return ["mpirun", "-np", str(job.np), job.exe] + job.args
        return [job.exe] + job.args

    def run_job(self, job):
        w = min(NCPU, max(1, job.np * job.threads))
        with self.slotlock:
            for _ in range(w):
                self.slots.acquire()
        try:
            if self.decided(0 if os.environ.get("VH_FAST") else 300):  # the verdict is known and the time is short: leave the rest out
                self.count(skipped_after_failure=1)
                return None
            r = self._run(job, first=True)
            if r is None:  # it crashed or hung: what counts is what a second run of the same case does
                if self.decided(0):
                    self.count(skipped_after_failure=1)
                    return None
                self.count(reruns=1)
                job.timeout *= 2
                if not self.thorough:
                    job.timeout = max(60, min(job.timeout, 660 - (time.time() - self.t0)))
                r = self._run(job)
            return r
        finally:
            for _ in range(w):
                self.slots.release()

    # a failure that is no known finding has been recorded, and so many seconds have passed
    def decided(self, seconds):
        if self.thorough or time.time() - self.t0 < seconds:
            return False
        keys = [o["key"] for o in self.known()]
        with self.lock:
            return any(not any(fnmatch.fnmatchcase(k, x) for x in keys) for k, _, _ in self.fails)

    def _run(self, job, first=False):
        d = tempfile.mkdtemp(prefix="job-", dir=self.scratch)
        os.makedirs(d + "/out/m")
        env = dict(os.environ)
        env.update(ENV)
        env["OMPI_MCA_orte_tmpdir_base"] = d
        env["TMPDIR"] = d
        env["OMP_NUM_THREADS"] = str(job.threads)
        env["VH_OUT"] = d + "/res"
        env["AXIONS_OUTPUT"] = d + "/out"
        env["HDF5_USE_FILE_LOCKING"] = "FALSE"
        env.update(job.env)
        if job.setup:
            job.setup(d)
        out = open(d + "/log", "w")
        t = time.time()
        p = subprocess.Popen(self.cmd(job), cwd=d, env=env, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        rc = None
        try:
            rc = p.wait(timeout=job.timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGTERM)
                p.wait(timeout=5)
            except Exception:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
            p.wait()
            rc = "timeout"
        out.close()
        log = open(d + "/log", errors="replace").read()
        ended = 0
        files = [d + "/res.%d" % r for r in range(job.np) if os.path.exists(d + "/res.%d" % r)]
        if first and not job.after and (rc != job.expect_rc or sum(any(l.startswith("E") for l in open(f, errors="replace")) for f in files) < job.np):
            if not os.environ.get("VH_KEEP"):
                shutil.rmtree(d, ignore_errors=True)
            return None
        for f in files:
            for line in open(f, errors="replace"):
                line = line.rstrip("\n")
                if line.startswith("C "):
                    _, a, b = line.split()
                    self.add(int(a), int(b))
                elif line.startswith("F "):
                    k, _, det = line[2:].partition("\t")
                    self.fail(k, det, job)
                elif line.startswith("S "):
                    with self.lock:
                        if len(self.samples) < 40:
                            self.samples.append(line[2:])
                elif line.startswith("K "):
                    _, k, v = line.split()
                    self.count(**{k: int(v)})
                elif line.startswith("E"):
                    ended += 1
        if job.after:
            job.after(self, d, rc, log)
        elif rc != job.expect_rc or ended < job.np:
            self.fail("crash:%s" % job.name, "run ended with rc=%s, %d of %d ranks reached the end; last output: %s"
                      % (rc, ended, job.np, " | ".join(log.strip().splitlines()[-6:])[-700:]), job)
        if os.environ.get("VH_VERBOSE"):
            sys.stderr.write("[%5.1fs] %s rc=%s\n" % (time.time() - t, job.name, rc))
            if os.environ["VH_VERBOSE"] == "2":
                sys.stderr.write(log[-3000:])
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return rc, log

    def run(self, jobs):
        jobs = list(jobs)
        # big ones first: fewer idle slots at the end
        jobs.sort(key=lambda j: -(j.np * j.threads))
        with ThreadPoolExecutor(2 * NCPU) as ex:
            list(ex.map(self.run_job, jobs))

    # -- result ----------------------------------------------------------------------------------
    def known(self):
        p = os.path.join(VERIF, "known_findings.jsonl")
        out = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("{"):
                    o = json.loads(line)
                    if o["property"] == self.prop and o.get("status", "known") == "known":
                        out.append(o)
        return out

    def finish(self, level, rule=None, exhaustive=True, coverage=None, assumptions=()):
        known = self.known()
        new, hit = [], {}
        for k, det, job in self.fails:
            for o in known:
                if fnmatch.fnmatchcase(k, o["key"]):
                    hit.setdefault(o["key"], (o, 0))
                    hit[o["key"]] = (o, hit[o["key"]][1] + 1)
                    break
            else:
                new.append((k, det, job))
        samples = self.samples[:12] or ["(none)"]
        if level == "model_checking":
            cov = dict(states=self.counters.get("states", 0), transitions=self.counters.get("transitions", 0),
                       traces_validated_against_impl=self.counters.get("traces", 0), samples=samples)
        else:
            cov = dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=rule or "", samples=samples)
        for k, v in self.counters.items():
            if k not in ("states", "transitions", "traces"):
                cov[k] = v
        cov.update(coverage or {})
        cov["exhaustive"] = bool(exhaustive)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions) or self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k, (o, n) in hit.items():
            print("KNOWN-FINDING: property=%s %s (%d case(s))" % (self.prop, o["what"], n))
        if os.environ.get("VH_VERBOSE"):
            json.dump([dict(key=k, detail=det) for k, det, j in new], open(os.path.join(build.BUILD, "fails-%s.json" % self.prop), "w"))
        rc = 0
        if not new and level != "model_checking" and self.evals == 0:
            print("ERROR: no case was evaluated")
            rc = 2
        if new:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.json" % self.prop)
            json.dump([dict(key=k, detail=det, cmd=self.cmd(j) if j else None, np=j.np if j else None,
                            env=dict(dict(OMP_NUM_THREADS=str(j.threads)), **j.env) if j else None)
                       for k, det, j in new[:50]], open(path, "w"), indent=1)
            for k, det, j in new[:8]:
                print("  failed: %s: %s" % (k, det[:600]))
            print("  (%d failing cases in all)" % len(new))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s, %d new failure(s), %d known finding(s)"
              % (self.prop, self.tier, self.evals, self.distinct, time.time() - self.t0, len(new), len(hit)))
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(self.scratch, ignore_errors=True)
        return rc
