"""C23: the Cython solver computes the upwind scheme."""
import glob
import json
import os
import shutil
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from checks import c18
from checks import upwind_common as uc
from vlib import build
from vlib.core import Crash, Inconclusive, Result, Target, Violation
from vlib.util import check

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("The extension is built with its own setup.py (Cython, NumPy and gcc as installed). Histories of 1-3 solvers of "
        "1-5 axes with unequal cells, any lengths and velocities of either sign or zero, stepped in turn, some deleted "
        "while others go on: after every segment every cell of every solver (as printed by printOut, which is exact) and "
        "the check sum against an independent numpy upwind scheme; the VTK files of 1-3 axis solvers, some written over "
        "older files, against the field. Grids of up to 100000 cells and runs of up to 4000 steps. The small cases run "
        "also on an extension instrumented with AddressSanitizer. A case is non-trivial when an axis of several cells has "
        "a velocity and at least one step is made.")
ASSUMPTIONS = ["agreement up to rounding: 16 eps (1 + 2 C) per step times the amplification of the scheme",
               "arrays are double (velocity, lengths) and 64 bit integers (cells), the types the source declares",
               "compiled as extension of the Python of python3-vt, the one that has Cython and NumPy"]
NAMES = ["plain", "asan"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-O1", "-g"]


def extension(ctx, name):
    def f():
        d = ctx.path("cy-" + name)
        shutil.copytree(build.src("upwind", "cython"), d)
        e = build.env(PATH=os.environ.get("PATH", "") + ":/usr/bin:/bin")
        if name == "asan":
            e.update(CFLAGS=" ".join(ASAN), LDFLAGS="-fsanitize=address", LDSHARED="gcc -shared -fsanitize=address")
        try:
            p = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace"], cwd=d, env=e,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            raise Inconclusive("building the extension takes more than 400 s") from None
        so = glob.glob(os.path.join(d, "upwind5*.so"))
        if p.returncode != 0 or not so:
            raise build.BuildError(p.stdout.decode(errors="replace")[-3500:])
        ctx.dirs[name] = d
    return f


def prepare(ctx):
    ctx.dirs = {}
    ctx.gone = not os.path.exists(build.src("upwind", "cython", "upwind5.pyx"))
    if ctx.gone:
        ctx.note("the Cython solver is not in the tree")
        return
    res = build.parallel({n: extension(ctx, n) for n in NAMES})
    ctx.error = res["plain"]
    if ctx.error is None and res["asan"] is not None:
        ctx.note("no instrumented extension: %s" % res["asan"])


def ask(env, name, ops, what):
    e = build.env(OMP_NUM_THREADS="1")
    if name == "asan":
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        e.update(LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=1", PYTHONMALLOC="malloc")
    s = env.server("cy-" + name, [sys.executable, build.h("srv_upwind_cy.py"), env.ctx.dirs[name]], env=e, cwd=env.dir)
    try:
        return json.loads(s.ask(json.dumps(ops))[0])
    except Crash as x:
        raise Violation("%s: %s" % (what, x)) from None


def run_build(env, c):
    check(env.ctx.error is None, "the extension does not build: %s", env.ctx.error)
    ans = ask(env, "plain", [["new", 0, [1.0], [1.0], [2]], ["f", 0]], "a solver of two cells")
    check([float(x) for x in ans[0][3]] == [1.0, 0.0], "a solver of two cells starts from %s", ans[0][3])
    return Result(True, ["build"])


@st.composite
def case(draw):
    ps, hist = [], []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        if ps and draw(st.booleans()):
            p = draw(uc.related(ps[0]))
        else:
            p = draw(uc.problem(draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5])), 300))
        ps.append(p)
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, len(ps) - 1))
        hist.append([k, draw(st.one_of(st.integers(0, 20), st.integers(1, 3))), draw(uc.time_step(ps[k])),
                     draw(st.sampled_from([None, None, None, "a", "a", "b"]))])
    gone = draw(st.sampled_from([None, None, None, 0, 1, 2]))
    return {"p": ps, "hist": hist, "late": draw(st.booleans()), "gone": gone}


@st.composite
def big_case(draw, kind):
    c = draw(uc.large_case("cython", max_cells=100000) if kind == "large" else uc.long_case("cython"))
    k = c["segs"][0]
    return {"p": [c["p"]], "hist": [[0, k[0], k[1], None]], "late": False, "gone": None}


def run(env, c):
    ps = c["p"]
    what = "Cython solvers %s history %s%s" % (ps, c["hist"], ", the later ones made when first used" if c["late"] else "")
    d = env.fresh_dir()
    cells = sum(int(np.prod(p["n"])) for p in ps)
    ops, seen = [], []
    done = [[] for _ in ps]
    alive = set()

    def look(k, vtk=None):
        ops.extend([["f", k], ["sum", k]])
        seen.append((k, [list(x) for x in done[k]], vtk))

    def new(k):
        p = ps[k]
        ops.append(["new", k, p["v"], p["l"], p["n"]])
        alive.add(k)
        look(k)
    deleted = set()
    for k in range(1 if c["late"] else len(ps)):
        new(k)
    last = {}
    for i, (k, steps, dt, name) in enumerate(c["hist"]):
        if i == c["gone"] and len(alive) > 1:
            v = sorted(alive)[-1]
            alive.discard(v)
            deleted.add(v)
            ops.append(["del", v])
        if k in deleted:
            continue
        if k not in alive:
            new(k)
        ops.append(["adv", k, steps, dt])
        done[k].append([steps, dt])
        for m in sorted(alive):
            look(m, None)
        if name and len(ps[k]["n"]) <= 3:
            path = os.path.join(d, name + ".vtk")
            ops.append(["vtk", k, path])
            last[path] = (k, len(seen))
            look(k, path)
    n = 0
    for name in NAMES if cells <= 400 and sum(h[1] for h in c["hist"]) <= 100 else NAMES[:1]:
        if name not in env.ctx.dirs:
            continue
        w = what + (" (AddressSanitizer)" if name == "asan" else "")
        ans = [a for a in ask(env, name, ops, w) if a[0] != "vtk"]
        for a in ans:
            check(a[0] != "changed", "%s: an array of the caller, %s, is changed to %s", w, *a[1:3])
        check(len(ans) == 2 * len(seen), "%s: answers missing", w)
        for i, (k, segs, path) in enumerate(seen):
            a, s = ans[2 * i], ans[2 * i + 1]
            p = ps[k]
            wk = "%s: solver %d after steps %s" % (w, k, segs)
            ref = uc.reference(p, segs)
            tol = uc.tolerance(p, segs) if segs else 0.0
            check(a[1] == k and s[1] == k, "%s: answers mixed up", w)
            try:
                f = np.array([float(x) for x in a[3]])
                idx = [int(x) for x in a[2]]
            except ValueError:
                check(False, "%s: printOut printed %s", wk, list(zip(a[2], a[3]))[:20])
            uc.compare_field(f, ref, tol, wk, p["n"])
            check(idx == list(range(f.size)), "%s: printOut numbers the cells %s", wk, idx[:20])
            t = f.sum()
            mag = float(abs(ref).sum()) + ref.size * tol
            check(abs(s[2] - t) <= 1e-15 * f.size * mag + 1e-14 * mag, "%s: check sum %r, the field's sum is %r", wk, s[2],
                  float(t))
            if path and last[path] == (k, i) and np.isfinite(f).all():
                c18.verify(path, p["n"], p["l"], f, wk + ": VTK file")
            n += 2
    lab = set()
    for p, x in zip(ps, done):
        if x:
            lab.update(uc.labels(p, x))
    if len(ps) > 1:
        lab.add("several solvers")
    if deleted:
        lab.add("a solver is deleted")
    if last:
        lab.add("VTK file")
    if cells > 65536:
        lab.add("more than 65536 cells")
    return Result(any(uc.nontrivial(p, x) for p, x in zip(ps, done)), sorted(lab), n)


def targets(ctx):
    if ctx.gone:
        return []
    out = [Target("build", st.just({}), run_build, 1, 1, shards=1)]
    if ctx.error is None:
        out += [Target("solver", case(), run, 1200, 40000), Target("large", big_case("large"), run, 24, 800),
                Target("long", big_case("long"), run, 64, 2000)]
    return out
