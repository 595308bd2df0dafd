"""C22: the Julia programs compute the upwind scheme, like the other implementations.

There is no Julia here: the programs are run by harness/minijulia.py, an interpreter of the part of Julia 1.x
they use. What it does not know is Unsupported, and leaves the case undecided; what Julia would stop with
(an undefined name, an index out of range, a number that is no integer) is a violation.
"""
import os
import re
import sys

import numpy as np
from hypothesis import strategies as st

from checks import upwind_common as uc
from checks import upwind_model as um
from vlib import build, vtk
from vlib.core import Inconclusive, Result, Target
from vlib.util import check

sys.path.insert(0, build.HARNESS)
import minijulia as mj      # noqa: E402

sys.setrecursionlimit(20000)
PROPERTY = "C22"
LEVEL = "exploration"
PROGRAMS = ["upwind.jl", "upwind3.jl"]
RULE = ("Both Julia programs, interpreted: run as programs with generated numbers of cells (1-7, upwind3.jl 1-14) and "
        "steps (0-12, or left to the program), with and without the vtk argument - check sum and file against the "
        "reference scheme; and as solvers: histories of 1-3 Upwind instances of 1-4 axes with unequal cells, any "
        "lengths, velocities of either sign or zero and several segments of steps, interleaved - every cell of every "
        "field after every segment against an independent numpy upwind scheme, and the VTK file of three-axis "
        "instances against the field. A case is non-trivial when an axis of several cells has a velocity and at least "
        "one step is made.")
ASSUMPTIONS = ["the interpreter (harness/minijulia.py) does what Julia 1.x does on the constructs these programs use: it is "
               "a model of Julia, written for this check, and has not been compared with Julia itself",
               "a construct it does not know leaves the case undecided",
               "VTK values are compared to the printed precision (6 decimals)"]
DECIMALS = 5.1e-7


def prepare(ctx):
    ctx.julia = {p: build.src("upwind", "julia", p) for p in PROGRAMS}
    ctx.gone = [p for p in PROGRAMS if not os.path.exists(ctx.julia[p])]
    for p in ctx.gone:
        ctx.note("%s is not in the tree" % p)


class Ran:
    """A program run by the interpreter; the interpreter stays for further calls."""

    def __init__(self, env, prog, argv, what, limit=6000000):
        self.what = what
        self.cwd = env.fresh_dir()
        self.it = mj.Interp(argv, cwd=self.cwd, limit=limit)
        self.rc = 0
        self.guard(lambda: self.it.run_file(env.ctx.julia[prog]))
        self.out = "".join(self.it.out)

    def guard(self, f):
        try:
            return f()
        except mj.Exit as e:
            self.rc = e.code
        except mj.Unsupported as e:
            raise Inconclusive("%s: the interpreter does not know: %s" % (self.what, e)) from None
        except mj.JuliaError as e:
            check(False, "%s: Julia stops with: %s\n%s", self.what, e, "".join(self.it.out)[-1000:])
        except RecursionError:
            raise Inconclusive("%s: recursion" % self.what) from None
        finally:
            self.it.finish()

    def call(self, name, *a):
        f = self.it.g.vars.get(name)
        if f is None:
            raise Inconclusive("%s: no function %s" % (self.what, name))
        return self.guard(lambda: self.it.call(f, list(a)))


def verify_vtk(path, dims, lengths, field, what):
    """field: of the shape dims, axis 0 is x."""
    check(os.path.exists(path), "%s: no file was written", what)
    try:
        v = vtk.read(path)
    except vtk.Bad as e:
        with open(path, errors="replace") as f:
            check(False, "%s: not a well-formed VTK file: %s\n%s", what, e, f.read(1500))
    check(v["kind"] == "RECTILINEAR_GRID", "%s: dataset %s", what, v["kind"])
    check(v["dims"] == [n + 1 for n in dims], "%s: DIMENSIONS %s for %s cells", what, v["dims"], dims)
    for j in range(3):
        for i, x in enumerate(v["xyz"[j]]):
            w = lengths[j] / dims[j] * i
            check(abs(x - w) <= DECIMALS + 1e-12 * abs(w), "%s: %s coordinate %d is %r, expected %r", what, "XYZ"[j], i,
                  x, w)
    got = np.array(v["cells"])
    ref = np.asarray(field).ravel(order="F")
    check(got.size == ref.size, "%s: %d cell values for %d cells", what, got.size, ref.size)
    bad = ~(np.abs(got - ref) <= DECIMALS + 1e-9 * np.abs(ref))
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        check(False, "%s: cell value %d is %r, the field has %r (%d of %d differ)", what, i, float(got[i]), float(ref[i]),
              int(bad.sum()), ref.size)


@st.composite
def program_case(draw, prog):
    big = prog == "upwind3.jl"
    n = draw(st.integers(1, 14 if big else 6))
    steps = draw(st.integers(0, 12))
    if not big:
        steps = min(steps, max(1, 600 // n ** 3))
        n = draw(st.sampled_from([n, n, n, n, n, n, n, n, n, 7]))
    if draw(st.integers(0, 7)) == 0 and n <= (8 if big else 2):
        steps = None
    return {"prog": prog, "n": n, "steps": steps, "vtk": steps is not None and draw(st.booleans())}


def run_program(env, c):
    argv = [str(c["n"])]
    if c["steps"] is not None:
        argv.append(str(c["steps"]))
    if c["vtk"]:
        argv.append("vtk")
    what = "%s %s" % (c["prog"], " ".join(argv))
    r = Ran(env, c["prog"], argv, what)
    check(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.out[-1000:])
    steps = c["steps"]
    if steps is None:
        m = re.search(r"time steps:\s*(\d+)", r.out)
        if not m:
            raise Inconclusive("%s: the number of steps is not printed" % what)
        steps = int(m.group(1))
    sums = re.findall(r"check\s*sum\s*:?\s*(\S+)", r.out, re.I)
    check(len(sums) == 1, "%s: no check sum is printed\n%s", what, r.out[-1000:])
    p = {"n": [c["n"]] * 3, "v": [1.0] * 3, "l": [1.0] * 3}
    segs = [[steps, 0.1 / c["n"]]]
    ref = uc.reference(p, segs)
    try:
        s = float(sums[0])
    except ValueError:
        check(False, "%s: check sum %r", what, sums[0])
    tol = 1e-13 * (1 + steps)
    check(abs(s - float(ref.sum())) <= tol, "%s: check sum %s, the reference scheme has %r", what, sums[0], float(ref.sum()))
    files = sorted(os.listdir(r.cwd))
    if c["vtk"]:
        check(len([f for f in files if f.endswith(".vtk")]) == 1, "%s: files written: %s", what, files)
        verify_vtk(os.path.join(r.cwd, [f for f in files if f.endswith(".vtk")][0]), p["n"], p["l"], ref, what)
    else:
        check(not files, "%s: files written: %s", what, files)
    return Result(c["n"] > 1 and steps > 0, [c["prog"]] + (["vtk"] if c["vtk"] else []) +
                  (["default steps"] if c["steps"] is None else []), 2)


@st.composite
def solver_case(draw, prog):
    cells = 400 if prog == "upwind3.jl" else 60
    ps, hist = [], []
    for k in range(draw(st.sampled_from([1, 1, 2, 3]))):
        nd = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4]))
        if ps and draw(st.booleans()) and len(ps[0]["n"]) > 0:
            p = draw(uc.related(ps[0]))
        else:
            p = draw(uc.problem(nd, cells))
        ps.append(p)
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, len(ps) - 1))
        hist.append([k, draw(st.integers(0, 8 if prog == "upwind3.jl" else 3)), draw(uc.time_step(ps[k]))])
    return {"prog": prog, "p": ps, "hist": hist}


def floats(xs):
    return mj.mkarr([float(x) for x in xs], None, "Float64")


def run_solver(env, c):
    what = "%s instances %s history %s" % (c["prog"], c["p"], c["hist"])
    r = Ran(env, c["prog"], ["1", "0"], what)
    ups = []

    def compare(k, segs):
        p = c["p"][k]
        up = ups[k]
        if not isinstance(up, mj.Struct) or not isinstance(up.f.get("f"), mj.Arr):
            raise Inconclusive("%s: the field is not the member f" % what)
        got = np.array([float(x) for x in mj.flat(up.f["f"])])
        check(got.size == int(np.prod(p["n"])), "%s: %d values for cells %s", what, got.size, p["n"])
        uc.compare_field(got.reshape(p["n"], order="F"), uc.reference(p, segs), uc.tolerance(p, segs) if segs else 0.0,
                         "%s: instance %d" % (what, k), p["n"])
        return got
    for p in c["p"]:
        ups.append(r.call("Upwind", len(p["n"]), floats(p["v"]), floats(p["l"]), mj.mkarr(list(p["n"]), None, "Int64")))
    done = [[] for _ in ups]
    n = 0
    for k in range(len(ups)):
        compare(k, [])
    for k, steps, dt in c["hist"]:
        for _ in range(steps):
            r.call("advect!", ups[k], float(dt))
        done[k].append([steps, dt])
        for m in range(len(ups)):
            compare(m, done[m])
            n += 1
    for k, p in enumerate(c["p"]):
        if len(p["n"]) == 3 and "save2VTK" in r.it.g.vars:
            f = compare(k, done[k])
            if np.isfinite(f).all() and np.abs(f).max() < 1e6:
                r.call("save2VTK", ups[k], "f%d.vtk" % k)
                verify_vtk(os.path.join(r.cwd, "f%d.vtk" % k), p["n"], p["l"], f.reshape(p["n"], order="F"),
                           "%s: file of instance %d" % (what, k))
                n += 1
    lab = set()
    for p, d in zip(c["p"], done):
        lab.update(uc.labels(p, d))
    if len(ups) > 1:
        lab.add("several instances")
    return Result(any(uc.nontrivial(p, d) for p, d in zip(c["p"], done)), [c["prog"]] + sorted(lab), n)


def targets(ctx):
    out = []
    for p in PROGRAMS:
        if p not in ctx.gone:
            big = p == "upwind3.jl"
            out.append(Target(p, program_case(p), run_program, 120 if big else 80, 3000, weight=2))
            out.append(Target(p + "-solver", solver_case(p), run_solver, 320 if big else 160, 8000, weight=1))
    return out
