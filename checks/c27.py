"""C27: the plot of a VTK file shows that file's field at the levels asked for."""
import json
import os
import re
import shutil

import numpy as np
from hypothesis import strategies as st

from checks import cli_common as cl
from checks import upwind_common as uc
from vlib import build, vtk
from vlib.core import Inconclusive, Result, Target, run_cmd
from vlib.util import check

PROPERTY = "C27"
LEVEL = "exploration"
RULE = ("fdi_plot.py as CMake configures it, on files saved by the C++, Fortran and Python solvers after generated histories "
        "(grids of 1-3 axes, fields of any sign and size) and on files of the programs, with no, listed and computed levels; "
        "what it prints, and the scene it renders in a stand-in for VTK, against the file read by a reader of our own. A case "
        "is non-trivial when the field is not constant and there are at least two levels.")
ASSUMPTIONS = ["VTK is not installed here: the script sees a stand-in that keeps the pipeline and reads the files strictly; "
               "what VTK draws for a contour value, and the colours, are not judged",
               "a construct of VTK the stand-in does not know makes a case inconclusive"]
PROGS = ["upwindCxx", "upwindOMPTasksCxx", "upwindAccCxx", "upwindAcc2Cxx", "upwindFortran", "upwindF03", "upwind.py"]


def prepare(ctx):
    ctx.impls = uc.build_impls(ctx, ["upwind", "upwindAcc2", "upwindF03", "upwind.py"])
    cl.build_programs(ctx, parts=("lib", "upwind_cxx", "fortran"), omp5=False)
    ctx.plot = os.path.join(ctx.path("progs"), "scripts", "fdi_plot.py")
    if not os.path.exists(ctx.plot):
        found = [os.path.join(d, f) for d, _, fs in os.walk(ctx.path("progs")) for f in fs if f == "fdi_plot.py"]
        ctx.plot = found[0] if found else None


FRACTION = st.one_of(st.floats(0, 1).map(lambda x: round(x, 6)), st.sampled_from([0.0, 0.5, 1.0, 0.25]))


@st.composite
def levels(draw):
    """[what follows --levels or None, the fractions]"""
    k = draw(st.sampled_from(["none", "list", "list", "tuple", "linspace", "range"]))
    if k == "none":
        return [None, list(np.linspace(0, 1.0, 5))]
    if k in ("list", "tuple"):
        v = draw(st.lists(FRACTION, min_size=1, max_size=12))
        t = ", ".join(map(repr, v))
        return ["[%s]" % t if k == "list" else "(%s,)" % t, v]
    if k == "linspace":
        a, b, n = draw(FRACTION), draw(FRACTION), draw(st.integers(1, 20))
        return ["linspace(%r, %r, %d)" % (a, b, n), list(np.linspace(a, b, n))]
    n = draw(st.integers(1, 15))
    return ["[i/%d. for i in range(%d)]" % (n, n), [i / n for i in range(n)]]


NAMES = st.sampled_from(["up.vtk", "out put.vtk", "a-b.vtk", "--x.vtk", "results", "up1.vtk"])


def plot(env, path, lv, how, what):
    d = os.path.join(env.dir, "plot")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    scene = os.path.join(d, "scene")
    e = build.env(SCENE=scene, PYTHONPATH=build.h("vtk_stub") + ":" + os.path.dirname(build.HARNESS.rstrip("/")),
                  PYTHONDONTWRITEBYTECODE="1")
    args = {"=": ["--filename=" + path], " ": ["--filename", path]}[how]
    if lv[0] is not None:
        args = args + ["--levels=" + lv[0]] if how == "=" else ["--levels", lv[0]] + args
    what = "%s: fdi_plot.py %s" % (what, " ".join(args))
    rc, out, err = run_cmd([build.VENV_PY, env.ctx.plot] + args, cwd=d, env=e, timeout=60)
    if rc == 77 and "UNSUPPORTED" in err or "ImportError" in err or "ModuleNotFoundError" in err:
        raise Inconclusive("%s: %s" % (what, err[-300:]))
    check(rc == 0, "%s: exit status %s\n%s", what, rc, err[-1500:])
    v = vtk.read(path)
    lo, hi = min(v["cells"]), max(v["cells"])
    got = [float(x) for x in re.findall(r"(?<![\w.])[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?(?![\w.])", out)]
    for name, x in (("minimum", lo), ("maximum", hi)):
        check(any(abs(x - g) <= 1e-5 * abs(x) for g in got), "%s: the field's %s, %r, is not printed:\n%s", what, name, x, out)
    check(v["name"] in re.findall(r"\w+", out), "%s: the scalar field %s is not named:\n%s", what, v["name"],
          out)
    check(os.path.exists(scene), "%s: nothing is rendered", what)
    with open(scene) as f:
        lines = [json.loads(x) for x in f]
    shown = [x for x in lines if x != "started"]
    check(shown, "%s: nothing is rendered", what)
    got = []
    for a in shown[-1]:
        if a["contours"] is None:
            continue
        check(a["file"] == os.path.realpath(path), "%s: contours of %s", what, a["file"])
        check(a["array"] == [v["name"]], "%s: contours of %s", what, a["array"])
        got += a["contours"]
    want = sorted(lo + (hi - lo) * x for x in lv[1])
    tol = 1e-6 * max(abs(lo), abs(hi))
    check(all(any(abs(a - b) <= tol for b in want) for a in got) and all(any(abs(a - b) <= tol for a in got) for b in want),
          "%s: contours at %s, expected %s", what, sorted(got), want)
    return Result(hi > lo and len(want) > 1, ["levels not given" if lv[0] is None else "levels given",
                                              "negative values" if lo < 0 else "no negative value"])


@st.composite
def saved_case(draw, impls):
    impl = draw(st.sampled_from(impls))
    p = draw(uc.problem(3 if impl in uc.ONLY3 else draw(st.integers(1, 3)), 120))
    segs = []
    for _ in range(draw(st.integers(0, 2))):
        segs.append([draw(st.integers(1, 5)), draw(uc.time_step(p)) * draw(st.sampled_from([1.0, 1.0, 1.0, 4.0, -1.0]))])
    return {"impl": impl, "p": p, "segs": segs, "lv": draw(levels()), "name": draw(NAMES), "how": draw(st.sampled_from("= "))}


def run_saved(env, c):
    d = env.fresh_dir()
    p = c["p"]
    path = os.path.join(d, c["name"])
    what = "file of %s cells %s lengths %s velocity %s steps %s" % (c["impl"], p["n"], p["l"], p["v"], c["segs"])
    ops = [["new", 0, p["v"], p["l"], p["n"]]] + [["adv", 0, k, dt] for k, dt in c["segs"]] + [["f", 0], ["vtk", 0, path]]
    f = uc.run_ops(env, c["impl"], ops, what).f()
    if not f or not np.isfinite(f[0][2]).all():
        raise Inconclusive("%s: the field is not finite" % what)
    return plot(env, path, c["lv"], c["how"], what)


@st.composite
def program_case(draw, progs):
    return {"prog": draw(st.sampled_from(progs)), "n": draw(st.integers(1, 7)), "steps": draw(st.integers(0, 6)),
            "lv": draw(levels()), "how": draw(st.sampled_from("= "))}


def run_program(env, c):
    args = cl.argv(c["prog"], c["n"], c["steps"], True)
    r = cl.run(env, c["prog"], args)
    check(r.rc == 0, "%s: exit status %s", r.what, r.rc)
    files = sorted(x for x in os.listdir(r.cwd) if x.endswith(".vtk"))
    if not files:
        raise Inconclusive("%s writes no file (see C16, C18)" % r.what)
    return plot(env, os.path.join(r.cwd, files[-1]), c["lv"], c["how"], r.what)


def targets(ctx):
    if ctx.plot is None:
        ctx.note("CMake does not configure fdi_plot.py")
        return []
    progs = [p for p in PROGS if p in ctx.prog]
    return [Target("saved", saved_case(ctx.impls), run_saved, 500, 12000),
            Target("programs", program_case(progs), run_program, 120, 3000)]
