"""C21: results do not depend on how the suite was built."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import c19
from checks import cli_common as cl
from checks import decomp_common as dc
from checks import upwind_common as uc
from vlib import build
from vlib.core import Result, Target, case_key, subseed
from vlib.util import ask, check

PROPERTY = "C21"
LEVEL = "exploration"
RULE = ("Every solver is built in the default configuration and at -O0 with assertions (no NDEBUG), -O3, -O3 for this machine's instruction set, "
        "without OpenMP, with OpenACC (parallel loops and kernels), and with OpenMP target directives (two settings of TEAMS and THREADS_PER_TEAM) "
        "falling back to the host (those also on our OpenMP runtime, with a seeded interleaving of the threads), in C++ also with clang++; generated problems (grids of 1-5 axes, velocities of either "
        "sign, several segments of stable and unstable steps) are run on all of them and compared, field, check sum and std, with the "
        "default build. The project is configured with CMake in its default way and with OPT_FLAGS=-O0, OPT_FLAGS=-O3, "
        "OPENMP=OFF, OPENACC=ON and as a debug build (-O0, no NDEBUG); every program of it (also the MPI programs on 1-8 ranks and matmult) "
        "runs generated command lines, with OMP_NUM_THREADS varied, and its check sums, std and VTK files are compared "
        "with those of the default configuration. A program that a configuration cannot build is a violation. A case "
        "is non-trivial when something moves, or there are at least two cells per axis and one step.")
ASSUMPTIONS = ["agreement up to the rounding bound of C02, or to the printed digits",
               "offloading needs a device compiler; here target regions fall back to the host (-foffload=disable), and "
               "OpenACC regions run on gcc's host device",
               "-ffast-math and other flags that change the arithmetic are not supported builds"]
NOOMP = [d for d in build.DEFS if d != "-DHAVE_OPENMP"]
OFF = build.DEFS + ["-DHAVE_OPENMP_OFFLOAD"]
HOST = ["-fopenmp", "-foffload=disable"]
# name -> optimisation, definitions, OpenMP flags, which
CONFIGS = {
    "default": (["-O2"], build.DEFS, ["-fopenmp"], "all"),
    "O0": (["-O0", "-UNDEBUG"], build.DEFS, ["-fopenmp"], "all"),
    "O3": (["-O3"], build.DEFS, ["-fopenmp"], "all"),
    "native": (["-O3", "-march=native"], build.DEFS, ["-fopenmp"], "all"),
    "no-openmp": (["-O2"], NOOMP, [], "no omp5"),
    "openacc": (["-O2"], NOOMP + ["-DHAVE_OPENACC"], ["-fopenacc"], "no omp5"),
    "openacc-kernels": (["-O2"], NOOMP + ["-DHAVE_OPENACC", "-DHAVE_OPENACC_KERNELS"], ["-fopenacc"], "Fortran"),
    "offload": (["-O2"], OFF, HOST, "all"),
    "offload-3-5": (["-O1"], ["-DHAVE_OPENMP", "-DHAVE_OPENMP_OFFLOAD", "-D_TEAMS=3", "-D_THREADS_PER_TEAM=5"], HOST, "all"),
    "clang": (["-O2"], NOOMP, [], "C++"),
}
# solvers with target regions: also run on our OpenMP runtime, threads interleaved by a seeded schedule
THREADED_OFFLOAD = ["upwindOMP5", "upwindF08Gpu"]
CMAKE = {"default": [], "O0": ["-DOPT_FLAGS=-O0"], "O3": ["-DOPT_FLAGS=-O3"], "openmp-off": ["-DOPENMP=OFF"],
         "openacc": ["-DOPENACC=ON"], 
         # CMakeLists.txt takes RelWithDebInfo whatever is asked for, so its flags are changed as well
         "debug": ["-DCMAKE_BUILD_TYPE=Debug"] + ["-DCMAKE_%s_FLAGS_RELWITHDEBINFO=-O0 -g" % x for x in ("C", "CXX", "Fortran")]}


def applies(which, m):
    return which == "all" or (which == "no omp5" and m != "upwindOMP5") or (
        which == "C++" and m in uc.CXX and m != "upwindOMP5") or (which == "Fortran" and m in uc.FORTRAN)


def program_job(ctx, m, name):
    """The unmodified program alone, in one configuration."""
    opt, defs, omp, _ = CONFIGS[name]
    exe = ctx.path("alone_%s@%s" % (m, name))
    if m in uc.CXX:
        return build.seq([("clang++" if name == "clang" else "g++"), "-std=gnu++11", *opt, *omp, *defs, "-w", "-I" + build.src("cxx"),
                          "-I" + build.src("upwind", "cxx"), "-o", exe, build.src("upwind", "cxx", m + ".cxx")]
                         + build.lib_sources(mpi=False))
    md = exe + ".mod"
    os.makedirs(md, exist_ok=True)
    return build.seq(["gfortran", *opt, *omp, *defs, "-w", "-J" + md, "-o", exe,
                      uc.f_source(m) if m != "matmult" else build.src("matmult", "fortran", "matmult.F90")])


def server_jobs(ctx):
    jobs = {}
    for name, (opt, defs, omp, which) in CONFIGS.items():
        impls = [m for m in uc.CXX + uc.FORTRAN if applies(which, m)]
        if name == "clang":
            js = uc.jobs_for(ctx, impls, opt=opt, cdefs=defs, suffix="@" + name, openmp=omp, cxx="clang++", san=["-w"])
        else:
            js = uc.jobs_for(ctx, impls, opt=opt, cdefs=defs, fdefs=defs, suffix="@" + name, openmp=omp, san=["-w"])
        jobs.update({"server:" + k: v for k, v in js.items()})
    return jobs


def matmult_job(ctx, name):
    opt, defs, omp, _ = CONFIGS[name]
    F = ["gfortran", *opt, *omp, *defs, "-w"]
    exe = ctx.path("mm@" + name)
    md = exe + ".mod"
    os.makedirs(md, exist_ok=True)
    return build.seq(F + ["-J" + md, "-c", "-o", exe + ".o", build.src("matmult", "fortran", "matmult.F90")],
                     ["objcopy", "-W", "main", exe + ".o"],
                     F + ["-I" + md, "-c", "-o", exe + "_d.o", build.h("srv_matmult.F90")],
                     F + ["-o", exe, exe + "_d.o", exe + ".o"])


def prepare(ctx):
    jobs = server_jobs(ctx)
    ctx.cmake = {}

    def cm(name):
        def f():
            p = build.cmake_build(ctx, "cm-" + name, CMAKE[name])
            ctx.cmake[name] = {k: [v] for k, v in p.items()}
        return f
    for n in CMAKE:
        jobs["cmake:" + n] = cm(n)
    for n, cfg in CONFIGS.items():
        if cfg[3] != "C++":
            jobs["server:matmult@" + n] = matmult_job(ctx, n)
    build.minigomp(ctx)
    for m in THREADED_OFFLOAD:
        jobs["threads:" + m] = build.mg_job(
            ctx, ctx.path("mgo_" + m), [build.h("srv_upwind.cpp")] + build.lib_sources(mpi=False) if m in uc.CXX else
            [uc.f_source(m), build.h("srv_upwind.F90")],
            OFF + (["-DDIMS_MIN=3", "-DDIMS_MAX=3", '-DUPWIND_SRC="%s"' % build.src("upwind", "cxx", m + ".cxx")]
                   if m in uc.CXX else []), () if m in uc.CXX else (0,))
    res = build.parallel(jobs, 10)
    build.require(res, "cmake:default")
    for m in THREADED_OFFLOAD:
        if res["threads:" + m] is None:
            ctx.srv[m + "@offload-threads"] = [ctx.path("mgo_" + m)]
        else:
            ctx.note("no offloaded %s on our OpenMP runtime: %s" % (m, str(res["threads:" + m])[-500:]))
    # a server that does not build: is it the harness or the program?
    alone = {}
    for k, e in res.items():
        if e is not None and k.startswith("server:"):
            m, n = k[7:].split("@")
            alone[k] = program_job(ctx, m, n)
    again = build.parallel(alone)
    ctx.builds = {}
    for k, e in res.items():
        if k.startswith("threads:"):
            continue
        if k.startswith("cmake:"):
            ctx.builds[k] = None if e is None else "\n".join(str(e).split("\n")[:1] + str(e)[-2500:].split("\n")[1:])
            continue
        if e is None:
            ctx.builds[k] = None
            continue
        ctx.srv.pop(k[7:], None)
        ctx.note("no harness for %s: %s" % (k, str(e)[-500:]))
        ctx.builds[k] = None if again[k] is None else str(again[k])[:300] + " ...\n" + str(again[k])[-2500:]
    ctx.mm = [n for n in CONFIGS if ctx.builds.get("server:matmult@" + n, "") is None
              and res["server:matmult@" + n] is None]


def run_build(env, c):
    e = env.ctx.builds.get(c["what"])
    check(e is None, "%s does not build in this configuration: %s", c["what"], e)
    return Result(True, [c["what"].split("@")[-1]])


def run_solver(env, c):
    """All configurations of one solver on one problem."""
    m, p = c["impl"], c["p"]
    base = uc.run_ops(env, m, ops_of(c), uc.describe(c) + ", default build", suffix="@default")
    n = 0
    work = int(np.prod(p["n"])) * sum(k for k, _ in c["segs"])
    for name in list(CONFIGS) + (["offload-threads"] if work <= 1500 else []):
        if name == "default" or m + "@" + name not in env.ctx.srv:
            continue
        what = "%s, built as '%s'" % (uc.describe(c), name)
        ops = ops_of(c)
        if name == "offload-threads":
            thr = c.get("thr", 1) + 1
            ops[0][1] = thr + 1000 * (1 + subseed(case_key(c)) % 1000000)
            what = "%s, built with OpenMP target directives, %d threads in schedule %d" % (
                uc.describe(c), thr, ops[0][1] // 1000)
        got = uc.run_ops(env, m, ops, what, suffix="@" + name)
        check([a[:2] for a in got] == [a[:2] for a in base], "%s: answers %s, default build %s", what,
              [a[:2] for a in got], [a[:2] for a in base])
        k = 0
        for g, b in zip(got, base):
            if g[0] == "f":
                tol = 2 * uc.tolerance(p, c["segs"][:k]) if k else 0.0
                k += 1
                check(np.asarray(g[2]).size == np.asarray(b[2]).size, "%s: %d values, default build %d", what,
                      np.asarray(g[2]).size, np.asarray(b[2]).size)
                bad = ~(np.abs(np.asarray(g[2]) - np.asarray(b[2])) <= tol)
                if bad.any():
                    i = int(np.argwhere(bad)[0][0])
                    check(False, "%s: value %d of the field is %r after %d segments, in the default build %r (%d of %d "
                          "differ by more than %.2g)", what, i, float(g[2][i]), k - 1, float(b[2][i]), int(bad.sum()),
                          bad.size, tol)
            else:
                cells = int(np.prod(p["n"]))
                t = 2 * (uc.tolerance(p, c["segs"]) + 2.3e-16 * cells) * cells
                if g[2] is None or b[2] is None:
                    check(g[2] is None and b[2] is None, "%s: %s is %r, default build %r", what, g[0], g[2], b[2])
                elif g[0] in ("sum", "std"):
                    check(abs(g[2] - b[2]) <= t, "%s: %s %r, default build %r", what,
                          {"sum": "check sum", "std": "std"}[g[0]], g[2], b[2])
        n += 1
    return Result(uc.nontrivial(p, c["segs"]), uc.labels(p, c["segs"]), n)


def ops_of(c):
    p = c["p"]
    ops = [["thr", c.get("thr", 1)], ["new", 0, p["v"], p["l"], p["n"]], ["f", 0]]
    for k, dt in c["segs"]:
        ops += [["adv", 0, k, dt], ["f", 0], ["sum", 0], ["std", 0]]
    return ops


def run_mul(env, c):
    """matmult's routines, against exact or bounded products, in every configuration."""
    path = env.ctx.path
    try:
        for n in env.ctx.mm:
            env.ctx.path = lambda *a, n=n: path("mm@" + n)
            servers = env.server
            env.server = lambda key, argv, **kw: servers("mm@" + n, argv, **kw)
            try:
                r = c19.run_mul(env, c)
            except Exception as e:
                if e.args:
                    e.args = ("built as '%s': %s" % (n, e.args[0]),) + e.args[1:]
                raise
            finally:
                env.server = servers
        return r
    finally:
        env.ctx.path = path


@st.composite
def program_case(draw, ranks=False):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 26)))
    c = {"n": n, "steps": draw(st.integers(1 if ranks else 0, 12)), "vtk": draw(st.booleans()), "std": draw(st.booleans()),
         "thr": draw(st.sampled_from([1, 2, 4]))}
    if ranks:
        r = [k for k in range(1, 9) if dc.valid_decomps(k, [n] * 3)]
        c["ranks"] = draw(st.sampled_from(r))
        c["dims"] = draw(st.integers(1, 3))
    return c


def table(r, files=True):
    """What a run computed: {name: numbers}."""
    out = {"check sum": r.sums()}
    s = r.after(r"\bstd\b")
    if s is not None:
        out["std"] = s
    for f in r.files if files else []:
        with open(os.path.join(r.cwd, f), errors="replace") as fh:
            t = []
            for w in fh.read().split():
                try:
                    t.append(float(w))
                except ValueError:
                    t.append(w)
            out["file " + f] = t
    return out


def compare(a, b, what):
    check(sorted(a) == sorted(b), "%s: has %s, the default build %s", what, sorted(a), sorted(b))
    for k in a:
        check(len(a[k]) == len(b[k]), "%s: %d items in the %s, default build %d", what, len(a[k]), k, len(b[k]))
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            same = x == y or (not isinstance(x, str) and not isinstance(y, str)
                              and (abs(x - y) <= 1.3e-5 * abs(y) + 1e-13 or (x != x and y != y)))
            check(same, "%s: item %d of the %s is %r, default build %r", what, i, k, x, y)


def run_program(env, c, progs, ranks=None):
    lab = []
    n = 0
    for p in progs:
        if p == "laplacian":
            args = ["-numCells", str(c["n"]), "-numDims", str(c["dims"])] + (["-vtk"] if c["vtk"] else [])
        elif p == "matmult":
            args = [str(c["n"]), str(c["steps"] + 1), "5"]
        else:
            args = cl.argv(p, c["n"], c["steps"], c["vtk"], c["std"] and p in cl.HAS_STD)
        seen = {}
        for name in CMAKE:
            prog = env.ctx.cmake.get(name, {})
            if p not in prog:
                continue
            env.ctx.prog = prog
            r = cl.run(env, p, args, threads=c["thr"], ranks=ranks and c["ranks"])
            what = "%s, configured with %s" % (r.what, CMAKE[name] or "no options")
            t = table(r)
            t["exit status"] = [r.rc]
            if p == "matmult":
                t["verdict"] = ["SUCCESS" in r.out, "ERROR" in r.out]
            seen[name] = t
            if name != "default":
                compare(t, seen["default"], what)
                n += 1
        lab.append(p)
    return Result(c["n"] > 1 and c["steps"] > 0, lab, n)


def targets(ctx):
    keys = sorted(ctx.builds)
    out = [Target("builds", st.sampled_from(keys).map(lambda k: {"what": k}), run_build, 40, 80, shards=1,
                  examples=[{"what": k} for k in keys])]
    for m in uc.CXX + uc.FORTRAN:
        if m + "@default" in ctx.srv:
            out.append(Target("solver:" + m, uc.solver_case(m, 200), run_solver, 160, 6000))
    if ctx.mm:
        out.append(Target("solver:matmult", c19.mul_case(), run_mul, 400, 20000))
    serial = [p for p in build.CXX_PROGS + build.FORTRAN_PROGS + ["matmult"] if p in ctx.cmake["default"]]
    out.append(Target("programs", program_case(), lambda e, c: run_program(e, c, serial), 24, 600, shards=4))
    mpi = [p for p in ("laplacian", "upwindMpiCxx") if p in ctx.cmake["default"]]
    if mpi:
        out.append(Target("mpi-programs", program_case(True), lambda e, c: run_program(e, c, mpi, True), 14, 200, shards=2, weight=4))
    return out
