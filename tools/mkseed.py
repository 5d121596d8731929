import sys, os, subprocess, json, shutil
V="/verif/seeded"
HDR=r'''#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include <unistd.h>
#include <mpi.h>
#include <omp.h>
#include "enum-field.h"
#include "cosmos/cosmos.h"
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "utils/utils.h"
#include "comms/comms.h"
Cosmos	initAxions(int argc, char *argv[]);
void	endAxions();
inline Cosmos *start(std::vector<std::string> a)
{
	a.insert(a.begin(), "demo"); a.push_back("--nologmpi");
	std::vector<char *> av; for (auto &s : a) av.push_back(strdup(s.c_str())); av.push_back(nullptr);
	static Cosmos c; c = initAxions((int) a.size(), av.data());
	return &c;
}
inline Scalar *field(Cosmos *c, size_t N, size_t Lz, FieldPrecision p, FieldType t, int np, size_t Ng, bool low = false)
{
	c->ICData().cType = CONF_NONE; fIndex = 0;
	return new Scalar(c, N, Lz, p, DEV_CPU, 1.0, low, np, t, LAMBDA_FIXED, Ng);
}
inline int &bad() { static int b = 0; return b; }
#define CHECK(c, ...) do { if (!(c)) { if (bad()++ < 5) { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); } } } while (0)
inline void quit() { int b = bad(), t = 0; MPI_Allreduce(&b, &t, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); _exit(t ? 1 : 0); }
'''
SH=r'''#!/bin/bash
# usage: demo.sh, in /repo after the build. Exit 0: the behaviour is right.
set -u
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
ulimit -c 0
g++ -O1 -w -std=gnu++14 -fopenmp -mavx2 -mfma -DUSE_PROP_RKN4 -mcmodel=medium -rdynamic -I/usr/include/hdf5/openmpi -I$R/_build/lib -I$R/lib -I$R/include \
    -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$H/demo.cpp" -o "$W/demo" $R/_build/lib/libAxions.a \
    /usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi_cxx.so /usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so -lfftw3 -lfftw3f -lfftw3_omp -lfftw3f_omp -lfftw3_mpi -lfftw3f_mpi \
    /usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so -lcrypto -lcurl -lsz -lz -ldl -lm -lgsl -lgslcblas || exit 2
cd "$W" && mkdir -p out/m
export AXIONS_OUTPUT=out/m
@RUN@
'''
def run(np=1, th=1, args="", t=100):
    return 'OMP_NUM_THREADS=%d timeout -k 5 %d mpirun -np %d "$W/demo" %d %s > log.txt 2>&1 < /dev/null; rc=$?; grep -aE "FAILED|order" log.txt; [ $rc = 0 ] || { echo "run with %d ranks: rc=$rc"; tail -5 log.txt; exit 1; }' % (th, t, np, np, args, np)
def seed(id, prop, edits, demo, runs, needs, breaks):
    d=f"{V}/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w="/tmp/mkseed.wt"; subprocess.run(["git","-C","/repo","worktree","remove","--force",w],capture_output=True)
    shutil.rmtree(w,ignore_errors=True)
    subprocess.run(["git","-C","/repo","worktree","add","--detach",w,"HEAD"],check=True,capture_output=True)
    for e in edits:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else 0   # n-th occurrence (0-based) ; -1 = all
        s=open(f"{w}/{f}").read()
        assert old in s,(f,old)
        if n==-1: s=s.replace(old,new)
        else:
            p=-1
            for _ in range(n+1):
                p=s.index(old,p+1)
            if len(e)<=3: assert s.count(old)==1,(f,old,s.count(old))
            s=s[:p]+new+s[p+len(old):]
        open(f"{w}/{f}","w").write(s)
    diff=subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
    open(f"{d}/patch.diff","w").write(diff)
    # lines removed must be original
    subprocess.run(["git","-C","/repo","worktree","remove","--force",w],capture_output=True)
    open(f"{d}/demo.h","w").write(HDR); open(f"{d}/demo.cpp","w").write(demo)
    open(f"{d}/demo.sh","w").write(SH.replace("@RUN@","\n".join(runs)+"\nexit 0")); os.chmod(f"{d}/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f"{d}/meta.json","w"),indent=1)
    print("made",id)
