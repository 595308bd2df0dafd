"""C24: offloading gives the host's results, on a simulated device with a memory of its own."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import acc2omp
from checks import c06
from checks import c21
from checks import cli_common as cl
from checks import upwind_common as uc
from vlib import build
from vlib.core import Result, Target, Violation, run_cmd
from vlib.util import check

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("There is no accelerator here, so the accelerator is simulated: the programs with OpenMP target or OpenACC directives "
        "are compiled unmodified and linked with an offloading runtime of our own, in which the device has a memory of its "
        "own. Data get there and back only as the map / copy clauses say, device memory starts undefined, reference "
        "counts and attached pointers are kept, and an access of device code to host memory or outside of what is mapped "
        "ends the run. Teams and threads of OpenMP regions are interleaved by seeded schedules under a race detector; the "
        "OpenACC loops, which gcc runs in order, are in addition rewritten as OpenMP target loops (clause by clause; where "
        "the compiler does not take that, as loops of host threads) and run in the same way. For generated grids, velocities, steps, histories with two solvers, thread counts and "
        "schedules, the field after every segment is that of the default host build up to rounding; the programs as "
        "users run them print and write the same. A case is non-trivial when something moves.")
ASSUMPTIONS = ["the device is the simulation; gcc's lowering of the directives is what is executed, and code generation for a "
               "real accelerator is not",
               "the device does not share memory with the host (with managed memory more programs would work)",
               "the teams of a target region run one after the other; races between them are looked for nevertheless"]
NOOMP = c21.NOOMP
OFF = c21.OFF
ACC = NOOMP + ["-DHAVE_OPENACC"]
OFF35 = ["-DHAVE_OPENMP", "-DHAVE_OPENMP_OFFLOAD", "-D_TEAMS=3", "-D_THREADS_PER_TEAM=5"]
KER = ACC + ["-DHAVE_OPENACC_KERNELS"]
# variant -> solver, model, definitions
VARIANTS = {
    "upwindOMP5": ("upwindOMP5", "omp", OFF),
    "upwindF08Gpu": ("upwindF08Gpu", "omp", OFF),
    "upwindF08Gpu-3-5": ("upwindF08Gpu", "omp", OFF35),
    "upwindF08Gpu-acc": ("upwindF08Gpu", "acc", ACC),
    "upwindF08Gpu-kernels": ("upwindF08Gpu", "acc", KER),
    "upwindAcc": ("upwindAcc", "acc", ACC),
    "upwindAcc2": ("upwindAcc2", "acc", ACC),
    "upwindFortran-acc": ("upwindFortran", "acc", ACC),
    "upwindAcc-threads": ("upwindAcc", "acc2omp", ACC),
    "upwindAcc2-threads": ("upwindAcc2", "acc2omp", ACC),
    "upwindFortran-acc-threads": ("upwindFortran", "acc2omp", ACC),
    "upwindF08Gpu-acc-threads": ("upwindF08Gpu", "acc2omp", ACC),
    "upwindF08Gpu-kernels-threads": ("upwindF08Gpu", "acc2omp", KER),
}
SOLVERS = ["upwindOMP5", "upwindF08Gpu", "upwindAcc", "upwindAcc2", "upwindFortran"]
PROGRAM = {m: uc.PROGRAM.get(m, m) for m in SOLVERS}


def program_source(m):
    return build.src("upwind", "cxx", m + ".cxx") if m in uc.CXX else uc.f_source(m)


def flags(model, defs):
    return (["-fno-openmp", "-fopenacc"] if model == "acc" else []) + list(defs)


def variant_jobs(ctx, name):
    m, model, defs = VARIANTS[name]
    source = program_source(m)

    def translated(exe, how):
        if model != "acc2omp":
            return source
        with open(source, errors="replace") as f:
            t, n = (acc2omp.cxx if m in uc.CXX else acc2omp.fortran)(f.read(), how)
        s = "%s.%s.%s" % (exe, how.__name__, source.split(".")[-1])
        with open(s, "w") as f:
            f.write(t)
        if n == 0:
            raise build.BuildError("no directives")
        return s

    def attempt(exe, harness, how):
        try:
            s = translated(exe, how)
        except acc2omp.Unknown as e:
            raise build.BuildError("cannot be rewritten: %s" % e) from None
        fl = flags(model, defs)
        if m in uc.CXX:
            fl += ["-DDIMS_MIN=3", "-DDIMS_MAX=3", '-DUPWIND_SRC="%s"' % s]
            srcs = [build.h("srv_upwind.cpp") if harness else s] + build.lib_sources(mpi=False)
            build.mg_job(ctx, exe, srcs, fl)()
        else:
            build.mg_job(ctx, exe, [s] + ([build.h("srv_upwind.F90")] if harness else []), fl, (0,) if harness else ())()

    def one(exe, harness):
        def f():
            try:
                attempt(exe, harness, acc2omp.directive)
            except build.BuildError:
                if model != "acc2omp":
                    raise
                # gfortran refuses some maps of OpenMP that it has for OpenACC
                attempt(exe, harness, acc2omp.shared)
        return f
    return {"dev_" + name: one(ctx.path("dev_" + name), True), "devp_" + name: one(ctx.path("devp_" + name), False)}


def prepare(ctx):
    build.minigomp(ctx)
    ctx.srv = {}
    jobs = {}
    for v in VARIANTS:
        jobs.update(variant_jobs(ctx, v))
    jobs.update({"host_" + k: j for k, j in uc.jobs_for(ctx, SOLVERS).items()})
    srv = dict(ctx.srv)
    ctx.srv = {}
    res = build.parallel(jobs, 10)
    build.require(res, *[k for k in res if k.startswith("host_")])
    for m in SOLVERS:
        ctx.srv[m] = srv[m]
    ctx.dev, ctx.devp = {m: [] for m in SOLVERS}, {m: [] for m in SOLVERS}
    for v, (m, model, _) in VARIANTS.items():
        for kind, table in (("dev_", ctx.dev), ("devp_", ctx.devp)):
            e = res[kind + v]
            if e is None:
                table[m].append(v)
                if kind == "dev_":
                    ctx.srv[m + "@" + v] = [ctx.path("dev_" + v)]
            else:
                ctx.note("%s%s cannot be built: %s" % (kind, v, str(e)[-600:]))
    cl.build_programs(ctx, parts=("lib", "upwind_cxx", "fortran"))


UNSUPPORTED = "MINIGOMP-UNSUPPORTED"


@st.composite
def case(draw, impl):
    nd = 3 if impl in uc.ONLY3 else draw(st.sampled_from([1, 2, 3, 3, 4]))
    p = draw(uc.problem(nd, draw(st.sampled_from([4, 12, 30, 80])), max_axis=12))
    segs = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        segs.append([draw(st.sampled_from([0, 1, 1, 2, 3, 5])), draw(uc.time_step(p, True))])
    c = {"impl": impl, "p": p, "segs": segs, "thr": draw(c06.THREADS), "seed": draw(c06.SEEDS)}
    if draw(st.sampled_from([False, False, True])):
        q = draw(uc.related(p))
        if int(np.prod(q["n"])) <= 200:
            c["other"] = [q, draw(uc.time_step(q, True))]
    return c


def script(c, thr):
    """Segments of the solver, those of another one in between; the field after each."""
    p = c["p"]
    ops = [["thr", thr], ["new", 0, p["v"], p["l"], p["n"]], ["f", 0]]
    if c.get("other"):
        q = c["other"][0]
        ops += [["new", 1, q["v"], q["l"], q["n"]]]
    for k, dt in c["segs"]:
        if c.get("other"):
            ops += [["adv", 1, 1, c["other"][1]]]
        ops += [["adv", 0, k, dt], ["f", 0], ["sum", 0]]
    if c.get("other"):
        ops += [["f", 1]]
    return ops


def run_case(env, c):
    m, p = c["impl"], c["p"]
    base = uc.run_ops(env, m, script(c, 1), uc.describe(c) + ", on the host")
    lab = uc.labels(p, c["segs"]) + (["two solvers"] if c.get("other") else [])
    n = 0
    for v in env.ctx.dev[m]:
        what = "%s%s, variant %s on the simulated device, schedule seed %d" % (
            uc.describe(c), ", with another solver of %s" % c["other"] if c.get("other") else "", v, c["seed"])
        try:
            got = uc.run_ops(env, m, script(c, c["thr"] + 1000 * c["seed"]), what, suffix="@" + v,
                             srvenv=build.env(MINIGOMP_DEVICE=1))
        except Violation as e:
            if UNSUPPORTED in str(e):
                lab.append(v + ": not supported by the simulated device")
                continue
            raise Violation(c06.where(str(e), env.ctx.srv[m + "@" + v][0])) from None
        check([a[:2] for a in got] == [a[:2] for a in base], "%s: answers %s, on the host %s", what, [a[:2] for a in got],
              [a[:2] for a in base])
        k = 0
        for g, b in zip(got, base):
            if g[0] == "f":
                if g[1]:
                    q, dt = c["other"]
                    tol = 2 * uc.tolerance(q, [[len(c["segs"]), dt]])
                else:
                    tol = 2 * uc.tolerance(p, c["segs"][:k]) if k else 0.0
                    k += 1
                x, y = np.asarray(g[2]), np.asarray(b[2])
                check(x.size == y.size, "%s: %d values, on the host %d", what, x.size, y.size)
                bad = ~(np.abs(x - y) <= tol)
                if bad.any():
                    i = int(np.argwhere(bad)[0][0])
                    check(False, "%s: value %d of the field is %r, on the host %r (%d of %d differ by more than %.2g)", what,
                          i, float(x[i]), float(y[i]), int(bad.sum()), bad.size, tol)
            elif g[0] == "sum":
                cells = int(np.prod(p["n"]))
                t = 2 * (uc.tolerance(p, c["segs"]) + 2.3e-16 * cells) * cells
                check(abs(g[2] - b[2]) <= t, "%s: check sum %r, on the host %r", what, g[2], b[2])
        lab.append(v)
        n += 1
    return Result(uc.nontrivial(p, c["segs"]) and n > 0, lab, n)


@st.composite
def program_case(draw, impls):
    return {"impl": draw(st.sampled_from(impls)), "n": draw(st.integers(1, 6)), "steps": draw(st.integers(0, 4)),
            "vtk": draw(st.booleans()), "thr": draw(c06.THREADS), "seed": draw(c06.SEEDS)}


def run_program(env, c):
    m = c["impl"]
    prog = PROGRAM[m]
    args = cl.argv(prog, c["n"], c["steps"], c["vtk"], False)
    base = c21.table(cl.run(env, prog, args, threads=1))
    lab = []
    n = 0
    for v in env.ctx.devp[m]:
        d = env.fresh_dir()
        cwd = os.path.join(d, "cwd")
        os.makedirs(cwd)
        exe = env.ctx.path("devp_" + v)
        what = "%s %s, variant %s on the simulated device, %d threads, schedule seed %d" % (
            prog, " ".join(args), v, c["thr"], c["seed"])
        rc, o, e = run_cmd([exe] + args, cwd=cwd, timeout=120, env=build.env(
            MINIGOMP_DEVICE=1, MINIGOMP_THREADS=c["thr"], MINIGOMP_SEED=c["seed"], MINIGOMP_STATS=1))
        if rc == 67 and UNSUPPORTED in e:
            lab.append(v + ": not supported by the simulated device")
            continue
        check(rc == 0, "%s: exit status %s\n%s\n%s", what, rc, o[-500:], c06.where(e[-1500:], exe))
        r = cl.Ran(rc, o, e, sorted(os.listdir(cwd)), cwd, what)
        c21.compare(c21.table(r), base, what + " (and the host build)")
        kernels = e.partition(" kernels ")[2].split()
        if kernels and int(kernels[0]) > 0:
            lab.append(v + ": ran on the device")
            n += 1
    return Result(c["n"] > 1 and c["steps"] > 0 and n > 0, lab, n)


def targets(ctx):
    out = []
    for m in SOLVERS:
        if ctx.dev[m]:
            out.append(Target("solver:" + m, case(m), run_case, 250, 8000))
    ms = [m for m in SOLVERS if ctx.devp[m]]
    if ms:
        out.append(Target("programs", program_case(ms), run_program, 120, 3000))
    return out
