from vlib import build
from vlib.core import Job

ISAS = {"fma": [], "avx2": ["-mno-fma"], "avx": ["-mno-avx2", "-mno-fma", "-mavx"], "sse": ["-mno-avx2", "-mno-fma", "-mno-avx", "-msse4.1"], "avx512": ["-mavx512f", "-mavx512vl", "-mavx512dq", "-mavx512bw"]}

def main(ck):
    T = ck.thorough
    exe = dict(zip(ISAS, build.together(*[(lambda n=n, f=f: build.harness("tri_" + n, ["tri.cpp"], [], extra=f, opt=("-O2",), libs=["-lm"])) for n, f in ISAS.items()])))
    jobs = []
    for n in ISAS:
        for what in ("sin", "cos"): jobs.append(Job(exe[n], [n, what, "0" if T or n == "fma" else "1", "1"], threads=4, timeout=800))
        for k in (range(4) if T or n == "fma" else (0,)): jobs.append(Job(exe[n], [n, "mod", str(k), "1"], threads=4, timeout=800))
        jobs.append(Job(exe[n], [n, "misc", str(int(T)), "1"], threads=4, timeout=800))
    ck.run(jobs)
    return ck.finish("exploration", exhaustive=True, rule="evaluation = one lane of one call of a real vector function compared with the scalar function (sine and cosine with the C library's in higher precision); every value of the ranges in single precision, every listed value in double precision",
                     assumptions=["single precision: all floats up to 1e7 (1e5 without fused multiply-add; the variants other than AVX2+FMA only from 1e-6 up in the quick run)", "double precision: values around every multiple of pi/4 up to 2^17 (thorough 2^21), scaled multiples up to 1e15, and a grid of mantissas for every exponent from -300 on", "AVX512 only where the machine has it", "the other cases of the default instruction set are covered through the kernels (P03, P04)"])
