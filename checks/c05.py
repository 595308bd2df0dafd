"""C05: mass is conserved, the solution stays bounded, diagnostics are true."""
import math

import numpy as np
from hypothesis import strategies as st

from checks import cli_common as cl
from checks import decomp_common as dc
from checks import upwind_common as uc
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("Every solver (C++, Fortran, Python serial and MPI) on generated grids of 1-5 axes, lengths, "
        "velocities of either sign and time steps, in up to 3 segments of together up to 300 steps: after "
        "every segment the field's sum is 1, every cell is in [0, 1] as long as no step so far had a total "
        "Courant number above 1, the check sum is the field's sum and the std (where there is one) its "
        "standard deviation. Every program with VTK output: the printed check sum and std are those of the "
        "field it writes. No reference scheme is involved. A case is non-trivial when an axis of several "
        "cells has a velocity and a step of non-zero length is made.")
ASSUMPTIONS = ["sums and bounds hold up to rounding: 16 eps (1 + 2 C) per step times the amplification of the "
               "scheme; a check sum up to the error of adding the cells one by one",
               "a program's printed check sum and std are compared to the printed precision",
               "unstable time steps are included for the sum, not for the bounds"]
SOLVERS = uc.CXX + uc.FORTRAN + uc.PYTHON


def prepare(ctx):
    ctx.impls = uc.build_impls(ctx, SOLVERS)
    cl.build_programs(ctx, parts=("lib", "upwind_cxx", "fortran"))


def judge(c, ans, has_std):
    p = c["p"]
    what = uc.describe(c)
    fs = [a for a in ans if a[0] == "f"]
    ss = [a for a in ans if a[0] == "sum"]
    sd = [a for a in ans if a[0] == "std"]
    check(len(fs) == len(c["segs"]) + 1 and len(ss) == len(c["segs"]), "%s: answers missing", what)
    evals = 0
    bounded = True
    lab = set()
    for k, a in enumerate(fs):
        segs = c["segs"][:k]
        f = np.asarray(a[2], dtype=float).reshape(-1)
        check(f.size == int(np.prod(p["n"])), "%s: %d cells", what, f.size)
        w = "%s after %d segments" % (what, k)
        tol = uc.tolerance(p, segs) if k else 0.0
        check(np.isfinite(f).all() or not np.isfinite(tol), "%s: the field is not finite", w)
        if not np.isfinite(f).all():
            break
        s = math.fsum(f)
        mag = math.fsum(np.abs(f))
        check(abs(s - 1.0) <= tol + 1e-15 * mag, "%s: the sum of the field is %r (tolerance %.2g)", w, s, tol)
        evals += 1
        if k and (uc.courant(p, segs[-1][1]) > 1 or segs[-1][1] < 0) and segs[-1][0] > 0:
            bounded = False
        if bounded:
            i, j = int(f.argmin()), int(f.argmax())
            check(f[i] >= -tol and f[j] <= 1 + tol, "%s: cells %d and %d are %r and %r, outside [0, 1] "
                  "(tolerance %.2g)", w, i, j, float(f[i]), float(f[j]), tol)
            evals += 1
        if k:
            x = ss[k - 1][2]
            add = 2.3e-16 * f.size * mag
            check(abs(x - s) <= add, "%s: check sum %r, the sum of the field is %r", w, x, s)
            evals += 1
        if k and has_std:
            x = sd[k - 1][2]
            if x is not None:
                m = s / f.size
                v = math.sqrt(math.fsum((f - m) ** 2) / f.size)
                check(abs(x - v) <= 1e-15 * f.size * (v + mag / f.size) + 1e-14 * v,
                      "%s: std %r, the field's standard deviation is %r", w, x, v)
                evals += 1
                lab.add("std")
    lab.add("bounded" if bounded else "unstable")
    return evals, lab


def run_one(env, c):
    has = c["impl"] in uc.HAS_STD
    ans = uc.run_solver(env, c, ("sum", "std") if has else ("sum",))
    evals, lab = judge(c, ans, has)
    return Result(uc.nontrivial(c["p"], c["segs"]), sorted(lab) + uc.labels(c["p"], c["segs"]), evals)


@st.composite
def cli_case(draw, progs, mpi=False):
    n = draw(st.one_of(st.integers(1, 12), st.integers(2, 24)))
    c = {"prog": draw(st.sampled_from(progs)), "n": n, "steps": draw(st.integers(1 if mpi else 0, 40))}
    if mpi:
        c["ranks"] = draw(st.sampled_from([r for r in range(1, 9) if dc.valid_decomps(r, [n] * 3)]))
    return c


def run_cli(env, c):
    p = c["prog"]
    r = cl.run(env, p, cl.argv(p, c["n"], c["steps"], True, p in cl.HAS_STD), threads=2,
               ranks=c.get("ranks"))
    check(r.rc == 0, "%s: exit status %s\n%s", r.what, r.rc, r.err[-1500:])
    s = r.sums()
    check(s, "%s: no check sum was printed:\n%s", r.what, r.out[-800:])
    tol = 1e-13 * (1 + c["steps"]) + 1e-15 * c["n"] ** 3
    for x in s:
        check(abs(x - 1.0) <= cl.precision(p) + tol, "%s: check sum %r, not 1", r.what, x)
    lab = [p]
    f = r.field(cl.VTK[p][0])
    if f is not None and len(f) == c["n"] ** 3:
        f = np.array(f)
        t = math.fsum(f)
        check(abs(s[-1] - t) <= cl.precision(p) + 6e-6 * math.fsum(np.abs(f)),
              "%s: check sum %r, the written field's sum is %r", r.what, s[-1], t)
        check(f.min() >= -tol and f.max() <= 1 + tol, "%s: the written field ranges from %r to %r", r.what,
              float(f.min()), float(f.max()))
        if p in cl.HAS_STD:
            x = r.after(r"\bstd\b")
            v = float(f.std())
            check(x and abs(x[0] - v) <= 1e-5 * v + 6e-6 * float(np.sqrt((f * f).mean())), "%s: std %s, the written field's is %r", r.what,
                  x, v)
            lab.append(p + " std")
    else:
        lab.append(p + ": no field read")
    return Result(c["n"] > 1 and c["steps"] > 0, lab, 3)


def targets(ctx):
    out = []
    for m in ctx.impls:
        out.append(Target(m, uc.solver_case(m), run_one, 500 if m != "upwind.py" else 300, 16000))
        out.append(Target(m + "-long", uc.long_case(m), run_one, 48 if m != "upwind.py" else 24, 1200))
    out.append(Target("programs", cli_case(cl.SERIAL), run_cli, 240, 6000))
    out.append(Target("mpi-programs", cli_case(cl.MPI, True), run_cli, 48, 1200, weight=5))
    return out
