"""C18: VTK output of the upwind programs is well formed and reproduces the field."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import cli_common as cl
from checks import decomp_common as dc
from checks import upwind_common as uc
from checks import upwind_model as um
from vlib import vtk
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("Every solver (C++, Fortran, serial Python) on generated 1-3 axis grids with unequal axes, lengths "
        "from 1e-150 to 1e150, velocities and steps (tiny values through tiny Courant numbers, large and "
        "negative ones through unstable steps), saved at several moments of a history under new names, under "
        "a name used before and over a longer file; every file is read by an independent strict reader and "
        "compared with the grid and with the solver's own field at that moment. Every program, run with its "
        "VTK option (the MPI Python program on 1-8 ranks): the same for the file it writes. A case is "
        "non-trivial when the grid has at least two cells and the field is not constant.")
ASSUMPTIONS = ["values and coordinates are compared to the printed precision (relative 6e-6)",
               "finite fields; grids of 1-3 axes (the OpenACC and OpenMP-target variants have 3)",
               "the file of the C++ MPI program is written by the library and is decided by C17"]
REL = 6e-6


def prepare(ctx):
    ctx.impls = uc.build_impls(ctx, uc.CXX + uc.FORTRAN + uc.PYTHON)
    cl.build_programs(ctx, parts=("lib", "upwind_cxx", "fortran"))


def verify(path, dims, lengths, field, what):
    check(os.path.exists(path), "%s: no file was written", what)
    try:
        v = vtk.read(path)
    except vtk.Bad as e:
        with open(path, errors="replace") as f:
            check(False, "%s: not a well-formed VTK file: %s\n%s", what, e, f.read(1500))
    check(v["kind"] == "RECTILINEAR_GRID", "%s: dataset %s", what, v["kind"])
    nd = len(dims)
    rev = [n + 1 for n in reversed(dims)]
    rl = list(reversed(lengths))
    off = 3 - nd if v["dims"][:3 - nd] == [1] * (3 - nd) else 0
    want = [1] * off + rev + [1] * (3 - nd - off)
    check(v["dims"] == want, "%s: DIMENSIONS %s for %s cells (expected %s)", what, v["dims"], dims, want)
    for j in range(nd):
        xs = v["xyz"[off + j]]
        for i, x in enumerate(xs):
            w = rl[j] / (rev[j] - 1) * i
            check(abs(x - w) <= REL * abs(w) + 1e-320, "%s: %s coordinate %d is %r, expected %r (axis %d of "
                  "the solver)", what, "XYZ"[off + j], i, x, w, nd - 1 - j)
    got = np.array(v["cells"])
    f = np.asarray(field, dtype=float).reshape(-1)
    check(got.size == f.size, "%s: %d cell values for %d cells", what, got.size, f.size)
    bad = ~(np.abs(got - f) <= REL * np.abs(f) + 1e-318)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        check(False, "%s: cell value %d is %r, the field has %r (%d of %d differ)", what, i, float(got[i]),
              float(f[i]), int(bad.sum()), f.size)
    return f.size > 1 and bool((f != f[0]).any())


@st.composite
def case(draw, impl):
    nd = 3 if impl in uc.ONLY3 else draw(st.sampled_from([1, 2, 2, 3, 3]))
    p = draw(uc.problem(nd, 200))
    if draw(st.integers(0, 40)) == 0:
        p = draw(uc.large_case(impl, max_cells=4000))["p"]
        nd = len(p["n"])
    if draw(st.sampled_from([False, False, True])):
        s = draw(st.sampled_from([1e-150, 1e-99, 1e-100, 1e-30, 1e30, 1e99, 1e100, 1e150]))
        j = draw(st.integers(0, nd - 1))
        p["l"] = [x * s if i == j else x for i, x in enumerate(p["l"])]
        p["v"] = [x * s if i == j else x for i, x in enumerate(p["v"])]
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        dt = draw(uc.time_step(p))
        dt *= draw(st.sampled_from([1.0, 1.0, 1.0, 1e-20, 1e-60, 3.0]))
        k = draw(st.integers(0, 6))
        ops.append([k, dt, draw(st.sampled_from(["a", "a", "b", "c", None]))])
    return {"impl": impl, "p": p, "ops": ops, "first": draw(st.sampled_from([None, "a", "b"])),
            "junk": draw(st.sampled_from([None, None, "a", "b"])),
            "thr": draw(st.sampled_from([1, 2])) if impl in uc.THREADED else 1}


def run(env, c):
    p = c["p"]
    d = env.fresh_dir()
    what = "%s cells %s lengths %s velocity %s, history %s, first save %s" % (
        c["impl"], p["n"], p["l"], p["v"], c["ops"], c["first"])

    def path(n):
        return os.path.join(d, n + ".vtk")
    if c["junk"]:
        with open(path(c["junk"]), "w") as f:
            f.write("old contents 1 2 3\n" * 3000)
    ops = [["thr", c["thr"]], ["new", 0, p["v"], p["l"], p["n"]]]
    names = []
    for k, dt, name in [[0, 0.0, c["first"]]] + c["ops"] + [[0, 0.0, "last"]]:
        if k:
            ops.append(["adv", 0, k, dt])
        if name:
            ops += [["f", 0], ["vtk", 0, path(name)]]
            names.append(name)
    fs = [a[2] for a in uc.run_ops(env, c["impl"], ops, what).f()]
    check(len(fs) == len(names), "%s: answers missing", what)
    last = dict(zip(names, fs))
    nontrivial = False
    lab = set(uc.labels(p, [[k, dt] for k, dt, _ in c["ops"]]))
    n = 0
    for name, f in sorted(last.items()):
        f = np.asarray(f)
        if not np.isfinite(f).all():
            lab.add("not finite: skipped")
            continue
        nontrivial |= verify(path(name), p["n"], p["l"], f, what + ", file " + name)
        n += 1
        a = np.abs(f[f != 0])
        if a.size and a.min() < 1e-99:
            lab.add("values below 1e-99")
        if a.size and a.min() < 2.3e-308:
            lab.add("denormal values")
        if (f < 0).any():
            lab.add("negative values")
    if names.count("a") > 1:
        lab.add("file written again")
    if c["junk"] in last:
        lab.add("over a longer file")
    return Result(nontrivial, sorted(lab), n)


@st.composite
def cli_case(draw, progs, mpi=False):
    n = draw(st.one_of(st.integers(1, 6), st.integers(2, 22)))
    c = {"prog": draw(st.sampled_from(progs)), "n": n, "steps": draw(st.integers(1 if mpi else 0, 12))}
    if mpi:
        c["ranks"] = draw(st.sampled_from([r for r in range(1, 9) if dc.valid_decomps(r, [n] * 3)]))
    return c


def run_cli(env, c):
    p, n = c["prog"], c["n"]
    r = cl.run(env, p, cl.argv(p, n, c["steps"], True), threads=2, ranks=c.get("ranks"))
    check(r.rc == 0, "%s: exit status %s\n%s", r.what, r.rc, r.err[-1500:])
    name, more = cl.VTK[p]
    expect = [(name, c["steps"])] + [(m, 0) for m in more]
    k = 0
    for m, s in expect:
        check(m in r.files, "%s: no file %s, but %s", r.what, m, r.files)
        k += verify(os.path.join(r.cwd, m), [n] * 3, [1.0] * 3, um.standard(n, s), "%s: %s" % (r.what, m))
    return Result(k > 0, [p], len(expect))


def targets(ctx):
    out = [Target(m, case(m), run, 500 if m != "upwind.py" else 300, 14000) for m in ctx.impls]
    out.append(Target("programs", cli_case(cl.SERIAL), run_cli, 240, 6000))
    out.append(Target("mpi-program", cli_case(["upwindMPI.py"], True), run_cli, 40, 1200, weight=5))
    return out
