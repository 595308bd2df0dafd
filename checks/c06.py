"""C06: OpenMP results do not depend on threads or schedule, and are race-free."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks import cli_common as cl
from checks import upwind_common as uc
from checks.c19 import matrices
from vlib import build
from vlib.core import Result, Target, Violation, run_cmd
from vlib.util import ask, check

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("Two searches. (1) Generated schedules: the solvers, the matrix product and the programs are compiled "
        "with -fopenmp -fsanitize=thread and linked with an OpenMP runtime of our own, which runs the threads "
        "of a team as fibers under a seeded scheduler that may switch at every memory access (random and "
        "priority-based schedules, also run-to-block), and checks every pair of accesses for a "
        "happens-before edge (vector clocks over fork, join, barriers, locks, critical, tasks, teams). For "
        "generated grids, velocities, steps, 1-100 threads (also more threads than cells) and several schedule "
        "seeds per case, there is no race and no deadlock and the field after every segment is bit for bit "
        "that of the one-thread run. (2) Generated inputs on the real libgomp with 2-130 threads, against one "
        "thread, bit for bit; the programs too, through the files they write. A case is non-trivial when "
        "there are at least 2 threads and something moves (solvers) or no size is below 2 (matrix product).")
ASSUMPTIONS = ["our runtime executes a sequentially consistent interleaving of the threads; the accesses seen are "
               "those the compiler instruments, plus memcpy and the like and Fortran I/O lists",
               "the teams of a target region are run one after the other; races between them are looked for "
               "nevertheless",
               "check sum and std are compared up to rounding (1e-12): the field is what has to be the same",
               "do concurrent is serial with this compiler, so there is no schedule to vary in it"]
SOLVERS = ["upwind", "upwindOMPTasks", "upwindOMP5", "upwindFortran", "upwindF03", "upwindF08", "upwindF08Gpu"]
MAIN_SRC = {"upwindCxx": ("upwind", "cxx", "upwind.cxx"),
            "upwindOMPTasksCxx": ("upwind", "cxx", "upwindOMPTasks.cxx"),
            "upwindOMP5Cxx": ("upwind", "cxx", "upwindOMP5.cxx"),
            "upwindFortran": ("upwind", "fortran", "upwind.F90"), "upwindF03": ("upwind", "fortran", "upwindF03.F90"),
            "upwindF08": ("upwind", "fortran", "upwindF08.F90"),
            "upwindF08Gpu": ("upwind", "fortran", "upwindF08Gpu.F90"), "matmult": ("matmult", "fortran", "matmult.F90")}


def prepare(ctx):
    build.minigomp(ctx)
    ctx.srv = {}
    jobs = {}
    inv = {v: k for k, v in uc.PROGRAM.items()}
    for m in SOLVERS:
        exe = ctx.path("mg_" + m)
        if m in uc.CXX:
            dims = ["-DDIMS_MIN=3", "-DDIMS_MAX=3"] if m in uc.ONLY3 else ["-DDIMS_MAX=4"]
            jobs["mg_" + m] = build.mg_job(
                ctx, exe, [build.h("srv_upwind.cpp")] + build.lib_sources(mpi=False),
                build.DEFS + dims + ['-DUPWIND_SRC="%s"' % build.src("upwind", "cxx", m + ".cxx")])
        else:
            jobs["mg_" + m] = build.mg_job(ctx, exe, [uc.f_source(m), build.h("srv_upwind.F90")], build.DEFS, (0,))
    m = "upwindF08Gpu+offload"
    jobs["mg_" + m] = build.mg_job(ctx, ctx.path("mg_" + m), [uc.f_source("upwindF08Gpu"), build.h("srv_upwind.F90")],
                                   build.DEFS + ["-DHAVE_OPENMP_OFFLOAD"], (0,))
    jobs["mg_mm"] = build.mg_job(ctx, ctx.path("mg_mm"), [build.src("matmult", "fortran", "matmult.F90"),
                                                         build.h("srv_matmult.F90")], build.DEFS, (0,))
    for p, s in MAIN_SRC.items():
        jobs["mgp_" + p] = build.mg_job(
            ctx, ctx.path("mgp_" + p), [build.src(*s)] + (build.lib_sources(mpi=False) if p in inv else []),
            build.DEFS)
    jobs.update({"real_" + k: j for k, j in uc.jobs_for(ctx, SOLVERS).items()})
    srv = ctx.srv
    ctx.srv = {}
    res = build.parallel(jobs)
    for k, e in res.items():
        if e is not None:
            ctx.note("%s cannot be built: %s" % (k, str(e)[-600:]))
    ctx.mg = {}
    ctx.real = [m for m in SOLVERS if res["real_" + m] is None]
    for k, e in res.items():
        if e is None and k.startswith("mg_"):
            ctx.mg[k[3:]] = ctx.path(k)
        elif e is None and k.startswith("mgp_"):
            ctx.mg[k] = ctx.path(k)
    for m in ctx.real:
        ctx.srv[m] = srv[m]
    for m in SOLVERS + ["upwindF08Gpu+offload"]:
        if m in ctx.mg:
            ctx.srv[m + "@mg"] = [ctx.mg[m]]
    cl.build_programs(ctx, parts=("lib", "upwind_cxx", "fortran", "matmult"))


def where(msg, exe):
    """Replaces the addresses of a report by source lines."""
    pcs = sorted(set(re.findall(r"pc=(0x[0-9a-f]+)", msg)))
    if not pcs:
        return msg
    rc, o, _ = run_cmd(["addr2line", "-e", exe] + [hex(int(x, 16) - 1) for x in pcs], timeout=60)
    for x, l in zip(pcs, o.split("\n")):
        msg = msg.replace("pc=" + x, os.path.relpath(l, build.src()) if l.startswith(build.src()) else l)
    return msg


def script(c, thr):
    p = c["p"]
    ops = [["thr", thr], ["new", 0, p["v"], p["l"], p["n"]]]
    for k, dt in c["segs"]:
        ops += [["adv", 0, k, dt], ["f", 0]]
    return ops + [["sum", 0], ["std", 0]]


def compare(one, many, what):
    check(len(one) == len(many), "%s: %d answers, and %d with one thread", what, len(many), len(one))
    for k, (a, b) in enumerate(zip(one, many)):
        if a[0] == "f":
            x, y = np.asarray(a[2]), np.asarray(b[2])
            check(x.size == y.size, "%s: %d cells, and %d with one thread", what, y.size, x.size)
            d = ~((x == y) | (np.isnan(x) & np.isnan(y)))
            if d.any():
                i = int(np.argwhere(d)[0][0])
                check(False, "%s: answer %d: cell %d is %r, with one thread it is %r (%d of %d cells differ)", what, k, i,
                      float(y[i]), float(x[i]), int(d.sum()), x.size)
        elif a[2] is not None:
            check(b[2] is not None and (abs(a[2] - b[2]) <= 1e-12 * abs(a[2]) + 1e-300 or a[2] != a[2] != b[2]
                                        or a[2] == b[2]),
                  "%s: %s is %r, with one thread %r", what, a[0], b[2], a[2])


# --- generated schedules -------------------------------------------------------------------------

SEEDS = st.integers(1, 2000000)
THREADS = st.sampled_from([2, 2, 3, 3, 4, 4, 5, 7, 8, 16] * 3 + [33, 65, 100])


@st.composite
def mg_case(draw, impl):
    base = impl.split("+")[0]
    nd = 3 if base in uc.ONLY3 else draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4]))
    p = draw(uc.problem(nd, draw(st.sampled_from([3, 8, 20, 60])), max_axis=12))
    if draw(st.integers(0, 30)) == 0:
        p = draw(uc.large_case(base, max_cells=1200))["p"]
    segs = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        segs.append([draw(st.sampled_from([1, 1, 2, 3])), draw(uc.time_step(p))])
    return {"impl": impl, "p": p, "segs": segs, "thr": draw(THREADS),
            "seeds": draw(st.lists(SEEDS, min_size=1, max_size=3))}


def run_mg(env, c):
    impl = c["impl"].split("+")[0]
    suf = ("+offload" if "+" in c["impl"] else "") + "@mg"
    desc = uc.describe(c) + ", schedule seed "
    try:
        one = uc.run_ops(env, impl, script(c, 1), desc + "(one thread)", suffix=suf)
        for s in c["seeds"]:
            many = uc.run_ops(env, impl, script(c, c["thr"] + 1000 * s), desc + str(s), suffix=suf)
            compare(one, many, desc + str(s))
    except Violation as e:
        raise Violation(where(str(e), env.ctx.mg[c["impl"]])) from None
    cells = int(np.prod(c["p"]["n"]))
    lab = uc.labels(c["p"], c["segs"]) + ["%d threads" % c["thr"]]
    if c["thr"] > cells:
        lab.append("more threads than cells")
    return Result(uc.nontrivial(c["p"], c["segs"]), lab, len(c["seeds"]))


@st.composite
def mm_case(draw):
    s = st.integers(1, 7)
    return {"which": draw(st.sampled_from([0, 1, 1])), "n": draw(s), "m": draw(s), "el": draw(s), "kind": "real",
            "seed": draw(st.integers(0, 10**9)), "thr": draw(THREADS), "stride": draw(st.sampled_from([1, 1, 2])),
            "seeds": draw(st.lists(SEEDS, min_size=1, max_size=3))}


def ask_mm(srv, c, thr, what):
    a, b = matrices(c)
    return ask(srv, "mul %d %d %d %d %d %d\n%s\n%s" % (
        c["which"], c["n"], c["m"], c["el"], thr, c["stride"],
        *[" ".join(repr(float(v)) for v in x.T.reshape(-1)) or "/" for x in (a, b)]), what)


def run_mm(env, c):
    srv = env.server("mgmm", [env.ctx.mg["mm"]], env=build.env())
    what = "matmult%d (%d x %d) (%d x %d), matrices of seed %d, stride %d, %d threads, schedule seed " % (
        c["which"], c["n"], c["m"], c["m"], c["el"], c["seed"], c["stride"], c["thr"])
    try:
        one = ask_mm(srv, c, 1, what)
        for s in c["seeds"]:
            check(ask_mm(srv, c, c["thr"] + 1000 * s, what + str(s)) == one,
                  "%s%d: the product is not that of one thread", what, s)
    except Violation as e:
        raise Violation(where(str(e), env.ctx.mg["mm"])) from None
    return Result(min(c["n"], c["m"], c["el"]) >= 2, ["matmult%d" % c["which"]], len(c["seeds"]))


@st.composite
def mgp_case(draw, progs):
    return {"prog": draw(st.sampled_from(progs)), "n": draw(st.integers(1, 6)), "steps": draw(st.integers(0, 3)),
            "thr": draw(THREADS), "seed": draw(SEEDS)}


def run_prog(env, argv, c, extra, what):
    d = env.fresh_dir()
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd)
    rc, o, e = run_cmd(argv, cwd=cwd, env=build.env(OMP_WAIT_POLICY="passive", **extra), timeout=120)
    check(rc == 0, "%s: exit status %s\n%s\n%s", what, rc, o[-500:], e[-1500:])
    files = {}
    for f in sorted(os.listdir(cwd)):
        with open(os.path.join(cwd, f), "rb") as fh:
            files[f] = fh.read()
    return cl.Ran(rc, o, e, files, cwd, what)


def same_run(one, many):
    check(sorted(one.files) == sorted(many.files), "%s: wrote %s, with one thread %s", many.what, sorted(many.files),
          sorted(one.files))
    for f in one.files:
        if one.files[f] != many.files[f]:
            a, b = one.files[f].split(b"\n"), many.files[f].split(b"\n")
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            check(False, "%s: line %d of %s is %r, with one thread %r", many.what, k + 1, f, b[k:k + 1], a[k:k + 1])
    x, y = one.sums(), many.sums()
    check(len(x) == len(y) and np.allclose(x, y, rtol=1e-5, atol=1e-9, equal_nan=True),
          "%s: check sums %s, with one thread %s", many.what, y, x)
    check(("SUCCESS" in one.out) == ("SUCCESS" in many.out), "%s: prints\n%s\nwith one thread\n%s", many.what, many.out,
          one.out)


def prog_args(c):
    if c["prog"] == "matmult":
        return [str(c["n"] + 1), str(c["n"]), str(c["steps"] + 1)]
    return cl.argv(c["prog"], c["n"], c["steps"], True)


def run_mgp(env, c):
    exe = env.ctx.mg["mgp_" + c["prog"]]
    args = prog_args(c)
    what = "%s %s, %d threads, schedule seed " % (c["prog"], " ".join(args), c["thr"])
    try:
        one = run_prog(env, [exe] + args, c, {"MINIGOMP_THREADS": 1, "MINIGOMP_SEED": 1}, what + "(one thread)")
        same_run(one, run_prog(env, [exe] + args, c, {"MINIGOMP_THREADS": c["thr"], "MINIGOMP_SEED": c["seed"]},
                               what + str(c["seed"])))
    except Violation as e:
        raise Violation(where(str(e), exe)) from None
    return Result(c["n"] > 1, [c["prog"]])


# --- libgomp ------------------------------------------------------------------------------------------

@st.composite
def real_case(draw, impl):
    c = draw(st.one_of(uc.solver_case(impl, 200), uc.large_case(impl)))
    c["thr"] = draw(st.sampled_from([2, 3, 4, 7, 8, 16] * 4 + [33, 65, 130]))
    c["repeat"] = draw(st.sampled_from([1, 1, 3]))
    return c


def run_real(env, c):
    one = uc.run_ops(env, c["impl"], script(c, 1), uc.describe(c))
    for _ in range(c["repeat"]):
        compare(one, uc.run_ops(env, c["impl"], script(c, c["thr"]), uc.describe(c)), uc.describe(c) + " on libgomp")
    cells = int(np.prod(c["p"]["n"]))
    return Result(uc.nontrivial(c["p"], c["segs"]), ["large" if cells > 1000 else "small"], c["repeat"])


@st.composite
def realp_case(draw):
    p = draw(st.sampled_from(sorted(MAIN_SRC)))
    return {"prog": p, "n": draw(st.integers(1, 16)), "steps": draw(st.integers(0, 8)),
            "thr": draw(st.sampled_from([2, 3, 8, 16] * 3 + [33, 65, 130])),
            "env": draw(st.sampled_from([{}, {}, {"OMP_DYNAMIC": "true"}, {"OMP_SCHEDULE": "dynamic,1"},
                                         {"OMP_MAX_ACTIVE_LEVELS": "3"}, {"OMP_THREAD_LIMIT": "3"}]))}


def run_realp(env, c):
    args = prog_args(c)
    a = env.ctx.prog[c["prog"]] + args
    what = "%s %s, %d threads %s" % (c["prog"], " ".join(args), c["thr"], c["env"] or "")
    one = run_prog(env, a, c, {"OMP_NUM_THREADS": 1}, what)
    same_run(one, run_prog(env, a, c, dict(c["env"], OMP_NUM_THREADS=c["thr"]), what))
    return Result(c["n"] > 1, [c["prog"]] + sorted(c["env"]))


def targets(ctx):
    out = []
    for m in SOLVERS + ["upwindF08Gpu+offload"]:
        if m in ctx.mg:
            out.append(Target("schedules:" + m, mg_case(m), run_mg, 400, 16000))
    if "mm" in ctx.mg:
        out.append(Target("schedules:matmult", mm_case(), run_mm, 300, 6000))
    progs = [k[4:] for k in ctx.mg if k.startswith("mgp_")]
    if progs:
        out.append(Target("schedules:programs", mgp_case(progs), run_mgp, 300, 8000))
    for m in ctx.real:
        out.append(Target("libgomp:" + m, real_case(m), run_real, 60, 1500))
    out.append(Target("libgomp:programs", realp_case(), run_realp, 150, 3000))
    return out
