"""The upwind solvers behind one interface, and the generators of the checks on them."""
import json
import math
import os
import sys

import numpy as np
from hypothesis import strategies as st

from checks import upwind_model as um
from vlib import build
from vlib.core import Crash, Inconclusive, Violation, run_cmd
from vlib.util import check, hx, num

CXX = ["upwind", "upwindOMPTasks", "upwindAcc", "upwindAcc2", "upwindOMP5"]
FORTRAN = ["upwindFortran", "upwindF03", "upwindF08", "upwindF08Gpu"]
PYTHON = ["upwind.py"]
THREADED = ["upwind", "upwindOMPTasks", "upwindOMP5", "upwindFortran", "upwindF08Gpu"]
ONLY3 = ["upwindAcc", "upwindAcc2", "upwindOMP5"]
HAS_STD = ["upwind", "upwindOMPTasks", "upwindAcc2", "upwindOMP5"]
# the program that has the solver
PROGRAM = {"upwind": "upwindCxx", "upwindOMPTasks": "upwindOMPTasksCxx", "upwindAcc": "upwindAccCxx",
           "upwindAcc2": "upwindAcc2Cxx", "upwindOMP5": "upwindOMP5Cxx"}
MAX_DIMS = 5


def f_source(impl):
    return build.src("upwind", "fortran", {"upwindFortran": "upwind"}.get(impl, impl) + ".F90")


def jobs_for(ctx, impls, opt=("-O2",), cdefs=None, fdefs=None, suffix="", openmp=("-fopenmp",), san=(),
             cxx="g++"):
    """Build jobs of servers. Sets ctx.srv[impl + suffix] = argv."""
    if not hasattr(ctx, "srv"):
        ctx.srv = {}
    cdefs = build.DEFS if cdefs is None else cdefs
    fdefs = build.DEFS if fdefs is None else fdefs
    jobs = {}
    for m in impls:
        exe = ctx.path("up_" + m + suffix)
        if m in CXX:
            dims = ["-DDIMS_MIN=3", "-DDIMS_MAX=3"] if m in ONLY3 else ["-DDIMS_MAX=%d" % MAX_DIMS]
            off = ["-foffload=disable"] if m == "upwindOMP5" else []
            jobs[m + suffix] = build.seq(
                [cxx, "-std=gnu++11", "-DNDEBUG", *opt, "-g", *openmp, *cdefs, *dims, *off, *san,
                 '-DUPWIND_SRC="%s"' % build.src("upwind", "cxx", m + ".cxx"),
                 "-I" + build.src("cxx"), "-I" + build.src("upwind", "cxx"), "-I" + build.HARNESS,
                 "-o", exe, build.h("srv_upwind.cpp")] + build.lib_sources(mpi=False))
            ctx.srv[m + suffix] = [exe]
        elif m in FORTRAN:
            md = ctx.path("mod_" + m + suffix)
            os.makedirs(md, exist_ok=True)
            F = ["gfortran", "-DNDEBUG", *opt, "-g", *openmp, *fdefs, *san]
            jobs[m + suffix] = build.seq(
                F + ["-J" + md, "-c", "-o", exe + ".o", f_source(m)],
                ["objcopy", "-W", "main", exe + ".o"],
                F + ["-I" + md, "-c", "-o", exe + "_d.o", build.h("srv_upwind.F90")],
                F + ["-o", exe, exe + "_d.o", exe + ".o"])
            ctx.srv[m + suffix] = [exe]
        else:
            ctx.srv[m + suffix] = [build.VENV_PY, build.h("srv_upwind.py"), build.src("upwind", "python")]
    return jobs


def build_impls(ctx, impls, **kw):
    """Builds the servers; those that cannot be built against the harness are left out (noted)."""
    res = build.parallel(jobs_for(ctx, impls, **kw))
    for k, e in res.items():
        if e is not None:
            ctx.note("no harness for the solver of %s: %s" % (k, str(e)[-700:]))
            del ctx.srv[k]
    return [m for m in impls if m + kw.get("suffix", "") in ctx.srv]


class Answers(list):
    def f(self):
        return [a for a in self if a[0] == "f"]


def run_ops(env, impl, ops, what, suffix="", srvenv=None, timeout=None):
    """Runs a script of operations; returns [kind, slot, value] per answering operation."""
    key = impl + suffix
    if srvenv is None:
        srvenv = build.env(OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive", OMP_NUM_THREADS="1")
    s = env.server("up-" + key, env.ctx.srv[key], env=srvenv, cwd=env.dir)
    try:
        if impl in CXX:
            line = [str(len(ops))]
            for o in ops:
                if o[0] == "new":
                    line.append("new %d %d %s %s %s" % (
                        o[1], len(o[2]), " ".join(num(x) for x in o[2]), " ".join(num(x) for x in o[3]),
                        " ".join(map(str, o[4]))))
                elif o[0] == "adv":
                    line.append("adv %d %d %s" % (o[1], o[2], num(o[3])))
                elif o[0] == "vtk":
                    line.append("vtk %d %s" % (o[1], hx(o[2])))
                else:
                    line.append("%s %d" % (o[0], o[1]))
            out = s.ask(" ".join(line), timeout)
        elif impl in FORTRAN:
            lines = []
            for o in ops:
                if o[0] == "new":
                    lines += ["new %d %d" % (o[1], len(o[2])), " ".join(map(repr, o[2])),
                              " ".join(map(repr, o[3])), " ".join(map(str, o[4]))]
                elif o[0] == "adv":
                    lines.append("adv %d %d %r" % (o[1], o[2], o[3]))
                elif o[0] == "vtk":
                    lines += ["vtk %d" % o[1], o[2]]
                elif o[0] != "std":
                    lines.append("%s %d" % (o[0], o[1]))
            out = s.ask("\n".join(lines + ["end"]), timeout)
        else:
            out = s.ask(json.dumps([o for o in ops if o[0] != "thr"]), timeout)
            return Answers([[a[0], a[1]] + ([np.array(a[2])] if a[0] == "f" else a[2:])
                            for a in json.loads(out[0])])
    except Crash as e:
        raise Violation("%s: %s" % (what, e)) from None
    ans = Answers()
    i = 0
    try:
        while i < len(out):
            w = out[i].split()
            i += 1
            if not w:
                continue
            if w[0] == "f" and impl in FORTRAN:
                n = int(w[2])
                ans.append(["f", int(w[1]), np.array([float(x) for x in out[i:i + n]])])
                i += n
            elif w[0] == "f":
                vals = []
                while i < len(out) and out[i].strip():
                    vals.append(float(out[i].split()[-1]))
                    i += 1
                ans.append(["f", int(w[1]), np.array(vals)])
            elif w[0] == "sum":
                ans.append(["sum", int(w[1]), float(w[2])])
            elif w[0] == "std":
                ans.append(["std", int(w[1]), None if w[2] == "none" else float(w[2])])
            elif w[0] == "vtk":
                ans.append(["vtk", int(w[1])])
    except (ValueError, IndexError):
        raise Violation("%s: unreadable answer: %s" % (what, out[max(0, i - 2):i + 2])) from None
    return ans


# ---------------------------------------------------------------------------------------------
# generators

def courant(p, dt):
    return sum(abs(v) * abs(dt) * n / l for v, n, l in zip(p["v"], p["n"], p["l"]))


def amplification(p, dt):
    c = sum(abs(v) * dt * n / l for v, n, l in zip(p["v"], p["n"], p["l"]) if n > 1)
    return max(1.0, abs(1 - c) + abs(c))


def tolerance(p, segs):
    """How far rounding can carry a field of these steps from the exact one."""
    a, n, cm = 1.0, 1, 0.0
    for k, dt in segs:
        a *= amplification(p, dt) ** k
        n += k
        cm = max(cm, courant(p, dt))
    return 2.2e-16 * 16 * (1 + 2 * cm) * n * a


CELLS = st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 20])


@st.composite
def problem(draw, nd, max_cells=300, max_axis=40, stable=False):
    n = []
    tot = 1
    for _ in range(nd):
        k = draw(st.one_of(CELLS, st.integers(1, max_axis)))
        k = max(1, min(k, max_cells // tot))
        n.append(k)
        tot *= k
    n = draw(st.permutations(n))
    l = [draw(st.one_of(st.just(1.0), st.sampled_from([0.5, 2.0, 3.0, 0.1, 10.0]),
                        st.floats(1e-3, 1e3))) for _ in range(nd)]
    kind = draw(st.integers(0, 4))
    v = []
    for j in range(nd):
        sg = draw(st.sampled_from([1.0, 1.0, -1.0, -1.0, 0.0]))
        mag = draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 0.3, 7.0])) if kind < 4 else \
            draw(st.floats(1e-6, 1e6))
        v.append(sg * mag)
    if kind == 0:
        v = [1.0] * nd
    return {"n": list(n), "l": l, "v": v}


@st.composite
def related(draw, p):
    """Another problem on the same grid, or on one with the same number of cells."""
    q = dict(draw(problem(len(p["n"]))), n=list(p["n"]))
    for k in ("v", "l"):
        if draw(st.booleans()):
            q[k] = list(p[k])
    kind = draw(st.integers(0, 4))
    if kind == 0:
        q["n"] = list(draw(st.permutations(q["n"])))
    elif kind == 1:
        q["v"] = [-x for x in p["v"]]
    return q


@st.composite
def time_step(draw, p, stable=False):
    """A time step of a chosen total Courant number."""
    rate = sum(abs(v) * n / l for v, n, l in zip(p["v"], p["n"], p["l"]))
    c = draw(st.one_of(st.sampled_from([0.1, 0.3, 0.5, 0.9, 0.99]), st.floats(0.001, 1.0)))
    if not stable:
        c = draw(st.sampled_from([c, c, c, c, c, c, c, 0.0, 1.3, -0.2]))
    if rate == 0:
        return c
    dt = c / rate
    if stable and courant(p, dt) > 1:
        dt *= 0.999999
    return dt


@st.composite
def segments(draw, p, max_steps=20, stable=False):
    out = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        out.append([draw(st.one_of(st.integers(0, max_steps), st.integers(1, 4))),
                    draw(time_step(p, stable))])
    return out


def dims_for(impl):
    if impl in ONLY3:
        return st.just(3)
    return st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5])


@st.composite
def solver_case(draw, impl, max_cells=300, stable=False, max_nd=5, max_steps=20):
    nd = min(draw(dims_for(impl)), max_nd)
    p = draw(problem(nd, max_cells))
    segs = draw(segments(p, max_steps, stable))
    c = {"impl": impl, "p": p, "segs": segs,
         "thr": draw(st.sampled_from([1, 2, 3, 4, 7])) if impl in THREADED else 1}
    if draw(st.sampled_from([False, False, False, True])):
        # a solver of a related problem that was used before in the same process, and may still be there
        q = draw(related(p))
        c["before"] = [q, draw(segments(q, 4)), draw(st.booleans())]
    return c


@st.composite
def large_case(draw, impl, stable=False, max_cells=60000, max_steps=6):
    """Few axes or many cells: sizes the small cases do not reach."""
    nd = 3 if impl in ONLY3 else draw(st.sampled_from([1, 2, 3, 3]))
    if max_cells > 50000 and draw(st.integers(0, 5)) == 0:
        max_cells *= 3          # beyond 2^16 and 2^17 cells
    n = []
    tot = 1
    for _ in range(nd):
        k = draw(st.one_of(st.integers(1, 300), st.integers(100, 400), st.integers(1, 20000),
                           st.sampled_from([127, 128, 129, 255, 256, 257, 1000, 32768, 40000, 65535, 65536, 65537, 70000])))
        k = max(1, min(k, max_cells // tot))
        n.append(k)
        tot *= k
    n = list(draw(st.permutations(n)))
    p = dict(draw(problem(nd)), n=n)
    segs = [[draw(st.integers(1, max_steps)), draw(time_step(p, True))]]
    return {"impl": impl, "p": p, "segs": segs,
            "thr": draw(st.sampled_from([1, 2, 8, 16])) if impl in THREADED else 1}


@st.composite
def long_case(draw, impl):
    """Many steps on few cells."""
    nd = 3 if impl in ONLY3 else draw(st.sampled_from([1, 2, 3]))
    p = draw(problem(nd, 120))
    steps = draw(st.integers(60, 300))
    if draw(st.integers(0, 5)) == 0:
        p = draw(problem(nd, 12))
        steps = draw(st.integers(1000, 4000))
        if draw(st.integers(0, 2)) == 0:
            p = draw(problem(nd, 6))
            steps = draw(st.integers(32760, 70000))
    return {"impl": impl, "p": p, "segs": [[steps, draw(time_step(p, True))]],
            "thr": draw(st.sampled_from([1, 2, 4])) if impl in THREADED else 1}


def reference(p, segs):
    return (um.solve if sum(k for k, _ in segs) < 5000 else um.solve_by_powers)(p["n"], p["v"], p["l"], segs)


def compare_field(got, ref, tol, what, dims):
    check(got.size == ref.size, "%s: %d values for %d cells", what, got.size, ref.size)
    g = got.reshape(dims)
    bad = ~(np.abs(g - ref) <= tol)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        check(False, "%s: cell %s is %r, the upwind scheme gives %r (%d of %d cells differ by more "
              "than %.2g)", what, i, float(g[i]), float(ref[i]), int(bad.sum()), bad.size, tol)


def nontrivial(p, segs):
    """Something moves: a stepped axis of several cells and a velocity."""
    return any(k > 0 and dt != 0 for k, dt in segs) and \
        any(v != 0 and n > 1 for v, n in zip(p["v"], p["n"]))


def labels(p, segs):
    lab = ["%d-d" % len(p["n"])]
    if any(v < 0 for v in p["v"]):
        lab.append("negative velocity")
    if any(v == 0 for v in p["v"]):
        lab.append("zero velocity")
    if len(set(p["n"])) > 1:
        lab.append("unequal axes")
    if 1 in p["n"]:
        lab.append("axis of 1 cell")
    if any(courant(p, dt) > 1 for _, dt in segs):
        lab.append("unstable step")
    if len(segs) > 1:
        lab.append("several segments")
    return lab


def describe(c):
    return "%s cells %s lengths %s velocity %s steps %s threads %d%s" % (
        c["impl"], c["p"]["n"], c["p"]["l"], c["p"]["v"], c["segs"], c.get("thr", 1),
        " after a solver of %s" % c["before"] if c.get("before") else "")


def run_solver(env, c, extra=("sum",)):
    """The standard run: the field after each segment. Returns (answers, describe)."""
    p = c["p"]
    ops = [["thr", c.get("thr", 1)]]
    if c.get("before"):
        q, segs, keep = c["before"]
        ops += [["new", 1, q["v"], q["l"], q["n"]]] + [["adv", 1, k, dt] for k, dt in segs]
        ops += [["sum", 1]] + ([] if keep else [["del", 1]])
    ops += [["new", 0, p["v"], p["l"], p["n"]], ["f", 0]]
    for k, dt in c["segs"]:
        ops += [["adv", 0, k, dt], ["f", 0]] + [[x, 0] for x in extra]
    ans = run_ops(env, c["impl"], ops, describe(c))
    return Answers(a for a in ans if a[1] == 0)


def mpi_python(env, n, scripts, timeout=150):
    """Scripts over the MPI Python solver on n ranks."""
    d = env.fresh_dir()
    with open(os.path.join(d, "in.json"), "w") as f:
        json.dump(scripts, f)
    argv = build.mpiexec(n, [build.VENV_PY, build.h("mpi_upwind.py"), build.src("upwind", "python"),
                             os.path.join(d, "in.json"), os.path.join(d, "out.json")])
    rc, o, e = run_cmd(argv, cwd=d, env=build.env(TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d, OMP_NUM_THREADS=1),
                       timeout=timeout)
    if rc is None and os.getloadavg()[0] > 40:
        raise Inconclusive("mpiexec timed out on a loaded machine")
    what = "upwindMPI on %d ranks" % n
    check(rc is not None, "%s: no end after %d s; %s", what, timeout, e[-800:])
    check(rc == 0 and os.path.exists(os.path.join(d, "out.json")), "%s: exit status %s\n%s", what, rc,
          e[-2500:])
    with open(os.path.join(d, "out.json")) as f:
        return json.load(f)
