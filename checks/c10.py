"""C10: the MPI programs give the same answer for every number of ranks."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks import decomp_common as dc
from checks import mpi_common as mc
from checks import upwind_model as um
from checks.c17 import verify_file
from vlib import build
from vlib.core import Inconclusive, Result, Target, run_cmd
from vlib.util import check

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("laplacian (1-5 axes, 1-24 cells, some of up to 140000) and upwindMpiCxx (1-14 cells, 1-12 steps) with and without "
        "-vtk on 1-16 (some up to 72) simulated ranks under a seeded schedule, and on 1-8 ranks of the real mpiexec; "
        "the check sums and the VTK field are compared with serial references; rank counts without "
        "a uniform decomposition must be refused in words, with no check sum, no file and a normal "
        "end. A case is non-trivial when it runs on at least two ranks.")
ASSUMPTIONS = [
    "the Laplacian's check sums are sums that cancel: they are compared within rounding, 1e-14 times "
    "(4*d)^10 times the number of cells",
    "at least one cell and one time step",
    "printed numbers are compared to the digits printed"]

FLOAT = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)", re.I)


def prepare(ctx):
    mc.build_mock(ctx, ("laplacian", "upmpi"), real=True)


@st.composite
def lap_case(draw, max_ranks=16):
    d = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 5]))
    if max_ranks == 16 and draw(st.integers(0, 9)) == 0:
        max_ranks = 72
    top = {1: 24, 2: 16, 3: 8, 4: 4, 5: 3}[d]
    if draw(st.integers(0, 14)) == 0:
        top = {1: 400, 2: 60, 3: 14, 4: 6, 5: 4}[d]
    n = draw(st.integers(1, top))
    ranks = draw(ranks_for([n] * d, max_ranks))
    return {"prog": "laplacian", "d": d, "n": n, "ranks": ranks, "vtk": draw(st.integers(0, 3)) > 0,
            "sched": draw(mc.SCHED), "order": draw(st.integers(0, 5))}


@st.composite
def lap_long_case(draw):
    """More than 65536 cells."""
    d = draw(st.sampled_from([1, 1, 1, 2]))
    if d == 1:
        n = draw(st.one_of(st.integers(65530, 65545), st.integers(65536, 140000), st.integers(8200, 17000).map(lambda x: 8 * x)))
    else:
        n = draw(st.one_of(st.integers(257, 300), st.integers(65, 75).map(lambda x: 4 * x)))
    return {"prog": "laplacian", "d": d, "n": n, "ranks": draw(ranks_for([n] * d, 8)), "vtk": True, "sched": draw(mc.SCHED),
            "order": draw(st.integers(0, 5))}


@st.composite
def ranks_for(draw, dims, top):
    good = [r for r in range(1, top + 1) if dc.valid_decomps(r, dims)]
    bad = [r for r in range(1, top + 1) if r not in good]
    if bad and draw(st.integers(0, 6)) == 0:
        return draw(st.sampled_from(bad))
    many = [r for r in good if r > 1]
    if many and draw(st.integers(0, 5)):
        return draw(st.sampled_from(many))
    return draw(st.sampled_from(good))


@st.composite
def up_case(draw, max_ranks=16):
    n = draw(st.integers(1, 14))
    if max_ranks == 16 and draw(st.integers(0, 9)) == 0:
        max_ranks = 72
    ranks = draw(ranks_for([n] * 3, max_ranks))
    if n > 10 and ranks < 4:
        n = draw(st.integers(1, 8))
        ranks = draw(ranks_for([n] * 3, max_ranks))
    steps = draw(st.integers(1, 12 if n < 9 else 5))
    if n <= 4 and draw(st.integers(0, 7)) == 0:
        steps = draw(st.integers(13, 300))
    return {"prog": "upmpi", "d": 3, "n": n, "ranks": ranks, "steps": steps,
            "vtk": draw(st.integers(0, 3)) > 0, "sched": draw(mc.SCHED),
            "order": draw(st.integers(0, 5))}


def argv(c):
    a = [["-numCells", str(c["n"])]]
    if c["prog"] == "laplacian":
        a.append(["-numDims", str(c["d"])])
    else:
        a.append(["-numSteps", str(c["steps"])])
    if c["vtk"]:
        a.append(["-vtk"])
    k = c["order"] % len(a)
    a = a[k:] + a[:k]
    return [w for x in a for w in x]


def judge(c, out, err, cwd, what):
    """out, err: what all ranks said."""
    valid = bool(dc.valid_decomps(c["ranks"], [c["n"]] * c["d"]))
    files = os.listdir(cwd)
    vtks = [f for f in files if f.endswith(".vtk")]
    lines = [l for l in out.split("\n") if re.search(r"check\s*sum", l, re.I)]
    if not valid:
        check(re.search(r"decomp", out + err, re.I), "%s: no uniform decomposition exists, and the "
              "program does not say so: %r %r", what, out[:300], err[:300])
        check(not lines, "%s: no uniform decomposition exists, but %r", what, lines)
        check(not files, "%s: no uniform decomposition exists, but it wrote %s", what, files)
        return ["refused"]
    check(lines, "%s: no check sum was printed: %r %r", what, out[-500:], err[-500:])
    ncell = c["n"] ** c["d"]
    if c["prog"] == "laplacian":
        ref = um.laplacian_ten(c["n"], c["d"])
        tol = 1e-14 * (4.0 * c["d"]) ** 10
        want, wtol = float(np.sum(ref)), tol * ncell + 1e-5 * abs(float(np.sum(ref)))
        nsums = 2
    else:
        ref = um.standard(c["n"], c["steps"])
        tol = 1e-13
        want, wtol = 1.0, 1e-5
        nsums = 1
    total = 0
    for l in lines:
        tail = re.split(r"check\s*sums?", l, flags=re.I)[1]
        for x in FLOAT.findall(tail):
            total += 1
            check(abs(float(x) - want) <= wtol, "%s: %r, expected %r within %g", what, l, want, wtol)
    check(total >= nsums, "%s: no number in %s", what, lines)
    if not c["vtk"] :
        check(not files, "%s: wrote %s without being asked to", what, files)
    elif c["d"] > 3:
        check(not vtks, "%s: wrote %s for %d axes", what, files, c["d"])
    else:
        check(len(files) == 1 and len(vtks) == 1, "%s: files %s, expected one VTK file", what, files)
        d = c["d"]

        def at(i, j, k):
            return float(ref[(i, j, k)[:d]])
        from vlib.core import Violation
        try:
            verify_file(os.path.join(cwd, vtks[0]), [c["n"]] * d, [0.0] * d, [1.0] * d, at, None,
                        lambda i, j, k: tol)
        except Violation as e:
            raise Violation("%s: %s" % (what, e)) from None
        return ["field compared"]
    return ["check sums"]


def name(c, how):
    return "%s %s on %d %s ranks" % (c["prog"], " ".join(argv(c)), c["ranks"], how)


def run_mock(env, c):
    what = name(c, "simulated") + " (schedule %s)" % c["sched"]
    cwd = mc.mock_cwd(env, c["prog"])
    if os.path.isdir(cwd):
        mc.clean_dir(cwd)
    r = mc.mock_run(env, c["prog"], c["ranks"], c["sched"],
                    "laplacian_main" if c["prog"] == "laplacian" else "upmpi_main",
                    [c["prog"]] + argv(c), what)
    check(not r.errors, "%s: %s", what, r.errors)
    check(not any(r.exit), "%s: exit statuses %s", what, r.exit)
    lab = judge(c, "\n".join(r.out), "\n".join(r.err), cwd, what)
    return Result(c["ranks"] > 1, [c["prog"] + " " + x for x in lab] + ["%d axes" % c["d"]])


def run_real(env, c):
    what = name(c, "Open MPI")
    d = env.fresh_dir()
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd)
    rc, o, e = run_cmd(build.mpiexec(c["ranks"], [env.ctx.real[c["prog"]]] + argv(c)), cwd=cwd,
                       env=build.env(TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d), timeout=100)
    if rc is None and os.getloadavg()[0] > 40:
        raise Inconclusive("mpiexec timed out on a loaded machine")
    check(rc is not None, "%s: no end after 100 s\n%s\n%s", what, o[-500:], e[-500:])
    check(rc == 0, "%s: exit status %s\n%s\n%s", what, rc, o[-800:], e[-800:])
    lab = judge(c, o, e, cwd, what)
    return Result(c["ranks"] > 1, [c["prog"] + " " + x for x in lab])


def targets(ctx):
    out = []
    real = 40
    for w, s, n in (("laplacian", lap_case, 1000), ("upmpi", up_case, 500)):
        if w in ctx.lib:
            out.append(Target(w + "-simulated", s(), run_mock, n, n * 30, weight=2))
        else:
            real = 120
    if "laplacian" in ctx.lib:
        out.append(Target("laplacian-long", lap_long_case(), run_mock, 16, 300, weight=8))
    for w, s in (("laplacian", lap_case), ("upmpi", up_case)):
        out.append(Target(w + "-real", s(8), run_real, real, real * 25, weight=5))
    return out
