"""Builds /repo's library sources and the harnesses, from /repo's current working tree.

Objects are cached in /verif/.build keyed by the *contents* of the source and of every file it includes, so
a stale object can never be used; a fresh copy of /verif simply compiles everything."""
import os, re, sys, hashlib, subprocess, json, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
INC = ["-I%s/include" % REPO, "-I%s/lib" % REPO, "-I%s" % REPO, "-I/usr/include/hdf5/openmpi",
       "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
BASE = ["-fopenmp", "-mavx2", "-mfma", "-DUSE_PROP_RKN4", "-mcmodel=medium", "-std=gnu++14", "-w"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5", "-lfftw3_omp", "-lfftw3", "-lfftw3f_omp", "-lfftw3f",
        "-lfftw3_mpi", "-lfftw3f_mpi", "-lgsl", "-lgslcblas", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi_cxx", "-lmpi",
        "-lpthread", "-ldl", "-lm", "-lz"]


class BuildError(Exception):
    pass


def lib_sources():
    txt = open(os.path.join(REPO, "lib/CMakeLists.txt")).read()
    out = []
    for f in re.findall(r"[A-Za-z0-9_./]+\.cpp", txt):
        if os.path.exists(os.path.join(REPO, "lib", f)) and f not in out:
            out.append(f)
    return out


_hash = {}
_hl = threading.Lock()


def fhash(p):
    with _hl:
        if p in _hash:
            return _hash[p]
    try:
        h = hashlib.sha256(open(p, "rb").read()).hexdigest()
    except OSError:
        h = "missing"
    with _hl:
        _hash[p] = h
    return h


_kl = {}


def compile_one(src, opt, extra, cxx="g++"):
    with _hl:
        l = _kl.setdefault((src, tuple(opt), tuple(extra), cxx), threading.Lock())
    with l:
        return _compile_one(src, opt, extra, cxx)


def _compile_one(src, opt, extra, cxx):
    os.makedirs(BUILD, exist_ok=True)
    flags = BASE + opt + extra
    key = hashlib.sha256((src + " " + cxx + " " + " ".join(flags + INC)).encode()).hexdigest()[:20]
    base = os.path.join(BUILD, os.path.basename(src).replace(".", "_") + "-" + key)
    obj, man = base + ".o", base + ".json"
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if all(fhash(p) == h for p, h in m.items()):
                return obj, 0.0
        except Exception:
            pass
    t = time.time()
    tmp = obj + ".tmp%d.o" % os.getpid()
    dep = tmp + ".d"
    r = subprocess.run([cxx] + flags + INC + ["-MD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    d = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    os.remove(dep)
    json.dump({p: fhash(p) for p in d if not p.startswith("/usr/")}, open(man + ".tmp", "w"))
    os.replace(tmp, obj)
    os.replace(man + ".tmp", man)
    return obj, time.time() - t


# the slow ones first, so that they overlap with everything else
SLOW = ["propagator/propagator.cpp", "energy/energyXeon.cpp", "spectrum/spectrum.cpp", "energy/energyNaxionXeon.cpp"]


def objects(only=None, skip=(), opt=("-O1",), extra=(), per_file=None, cxx="g++"):
    srcs = [s for s in lib_sources() if (only is None or s in only) and s not in skip]
    srcs.sort(key=lambda s: SLOW.index(s) if s in SLOW else 99)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = [ex.submit(compile_one, os.path.join(REPO, "lib", s), list((per_file or {}).get(s, opt)), list(extra), cxx)
                for s in srcs]
        return [f.result()[0] for f in futs]


def together(*fns):
    """Runs several builds at the same time."""
    with ThreadPoolExecutor(len(fns)) as ex:
        return [f.result() for f in [ex.submit(f) for f in fns]]


def harness(name, srcs, objs, extra=(), ldextra=(), opt=("-O1",), cxx="g++", libs=None):
    """Compiles /verif/harness/<srcs> and links them with objs. Symbols of library parts that this harness
    leaves out stay unresolved on purpose (they are not called)."""
    hs = [compile_one(os.path.join(VERIF, "harness", s), list(opt), ["-I%s/harness" % VERIF] + list(extra), cxx)[0] for s in srcs]
    exe = os.path.join(BUILD, name + ".exe")
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = [cxx, "-fopenmp", "-mcmodel=medium"] + list(ldextra) + ["-o", tmp] + hs + objs + ["-Wl,--unresolved-symbols=ignore-all"] + (LIBS if libs is None else libs)
    if "-rdynamic" in ldextra:  # exported symbols have to exist: those of left-out parts are defined as a trap
        miss = subprocess.run(cmd[:-len(LIBS if libs is None else libs) - 1] + ["-Wl,--warn-unresolved-symbols,--no-demangle"] + (LIBS if libs is None else libs), capture_output=True, text=True).stderr
        syms = sorted(set(re.findall(r"undefined reference to [`']([\w.$]+)'", miss)))
        if syms:
            asm = tmp + ".s"
            open(asm, "w").write('.section .note.GNU-stack,"",@progbits\n.text\n' + "".join(".globl %s\n%s: ud2\n" % (x, x) for x in syms))
            cmd.insert(cmd.index(tmp) + 1, asm)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if os.path.exists(tmp + ".s"):
        os.remove(tmp + ".s")
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
    os.replace(tmp, exe)
    return exe
