"""C16: programs run exactly the problem asked for on the command line, or none."""
import functools
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks import cli_common as cl
from checks import decomp_common as dc
from checks import mpi_common as mc
from checks import upwind_model as um
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("Random command lines of every program: options in any order, repeated, left out, switches given "
        "several times, stray words, help and unknown options among them (near misses such as -numcells, "
        "--vtk, -numCells=5 included); for the Fortran and Python programs and matmult positional words that "
        "are numbers, are none, are missing, or are too many. What the program echoes, the steps it prints, "
        "std, the files it writes and their field are compared with a model of the command line and the "
        "reference solution; a refused line must give no check sum, no file, a normal end and the usage. The "
        "MPI programs run under the simulated MPI, and under mpiexec. A case is non-trivial when an option or "
        "word is given.")
ASSUMPTIONS = ["sizes of at least one cell; values of options do not look like options; no empty words",
               "the usage shows the value in effect for an option given on the same line, its default "
               "otherwise: only the latter is checked",
               "the number of cells and steps of a program is observed through what it echoes, the number of "
               "iterations it prints, its std and its VTK file",
               "a Python program may refuse by an exception (a message and exit status 1)"]

OPTIONS = {"-numCells": ("i", 128), "-numSteps": ("i", 10), "-vtk": ("b", False), "-std": ("b", False)}


def declared(prog):
    if prog == "laplacian":
        d = {"-numCells": ("i", 8000), "-numDims": ("i", 2), "-vtk": ("b", False)}
    else:
        d = {k: v for k, v in OPTIONS.items() if k != "-std" or prog in cl.HAS_STD}
    d["-h"] = ("b", False)
    return d


def prepare(ctx):
    mc.build_mock(ctx, ("laplacian", "upmpi"), real=True)
    cl.build_programs(ctx)


WORDS = st.sampled_from(["32", "10", "vtk", "-5", "-", "numCells", "x=1", "5.5", "h", "-1", "std"])
UNKNOWN = st.sampled_from(["-numcells", "-numCell", "-numCellss", "--numCells", "-vtkk", "-v", "--vtk", "-help",
                           "--help", "-numCells=5", "-n", "-nx", "-H", "-s", "-numSteps=3", "-numDim", "-o",
                           "--", "-vtk=1"])


def spelling(draw, k):
    """A way to write the number k: with leading zeros in part."""
    return "0" * draw(st.sampled_from([0] * 8 + [1, 2, 3, 4, 5, 8, 12])) + str(k)


# numbers of steps of more digits, for grids of a few cells
MANY = st.sampled_from([99, 100, 101, 999, 1000, 1234, 9999, 10000, 12345, 32767, 32768, 65536])


@st.composite
def line(draw, prog):
    """A command line of declared options, words, and in part help or unknown options."""
    d = declared(prog)
    big = prog != "laplacian" and draw(st.sampled_from([False] * 14 + [True]))
    items = []
    dims = None
    if prog == "laplacian":
        dims = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5]))
        top = {1: 60, 2: 20, 3: 8, 4: 5, 5: 3}[dims]
        n = draw(st.integers(1, top))
        if dims == 1 and draw(st.booleans()):
            n = None
        for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
            if n is not None:
                items.append(["-numCells", draw(st.integers(1, 3))])
        if n is not None:
            items[-1][1] = n
        if dims != 2 or draw(st.booleans()):
            items.append(["-numDims", dims])
            if draw(st.sampled_from([False, False, True])):
                items.insert(0, ["-numDims", draw(st.integers(1, 4))])
    else:
        if not big:
            k = draw(st.sampled_from([1, 1, 1, 2, 3]))
            items += [["-numCells", draw(st.one_of(st.integers(1, 8), st.integers(1, 16)))] for _ in range(k)]
        for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
            items.append(["-numSteps", draw(st.integers(1, 3) if big else st.one_of(
                st.integers(1, 12), st.integers(1, 30)))])
        if not big and draw(st.sampled_from([False] * 9 + [True])):
            items = [["-numCells", draw(st.integers(1, 2))], ["-numSteps", draw(MANY)]]
    for it in items:
        it[1] = spelling(draw, it[1])
    order = {"-numCells": [], "-numSteps": [], "-numDims": []}
    for it in items:
        order[it[0]].append(it)
    flags = [f for f in d if d[f][0] == "b" and f != "-h" and not (big and f == "-vtk")]
    extra = []
    for f in flags:
        extra += [[f]] * draw(st.sampled_from([0, 1, 1, 1, 2, 3]))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        extra.append([draw(WORDS)])
    kind = draw(st.sampled_from(["run"] * 5 + ["help", "unknown"]))
    if kind == "help":
        extra += [["-h"]] * draw(st.sampled_from([1, 1, 1, 2, 3]))
    elif kind == "unknown":
        u = draw(UNKNOWN)
        extra.append([u] + ([draw(WORDS)] if draw(st.booleans()) else []))
        if draw(st.sampled_from([False, False, True])):
            extra.append(["-h"])
    # a shuffle that keeps repeated options in their order (the last one counts)
    slots = draw(st.permutations([it[0] for it in items] + [None] * len(extra)))
    extra = iter(draw(st.permutations(extra)))
    out = []
    for s in slots:
        out += [str(w) for w in (next(extra) if s is None else order[s].pop(0))]
    return out


def parse(prog, words):
    """Model of the command line: (refused, values)."""
    d = declared(prog)
    val = {k: v[1] for k, v in d.items()}
    given = set()
    i = 0
    while i < len(words):
        w = words[i]
        if len(w) >= 2 and w[0] == "-" and not w[1].isdigit():
            if w not in d:
                return w, val, given
            given.add(w)
            if d[w][0] == "b":
                val[w] = not val[w]
            else:
                i += 1
                val[w] = int(words[i])
        i += 1
    return None, val, given


@functools.lru_cache(maxsize=40)
def std_of(n, steps):
    return float(um.standard(n, steps).std())


@functools.lru_cache(maxsize=40)
def field_of(n, steps):
    return um.standard(n, steps).reshape(-1)


def judge_refused(prog, r_out, err, rc, files, what, refused, given):
    text = r_out + "\n" + err
    check(rc is not None and 0 <= rc < 128, "%s: ended with status %s\n%s", what, rc, text[-1500:])
    check(not cl.SUM.search(text), "%s: a check sum was printed:\n%s", what, text[-1500:])
    check(not files, "%s: wrote %s", what, files)
    if refused:
        check(re.search(r"error|invalid|not\s+(a\s+)?valid|unknown|wrong", text, re.I), "%s: does not say what "
              "is wrong:\n%s", what, text[-1500:])
    for o, (t, dflt) in declared(prog).items():
        ls = [l for l in text.split("\n") if re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(o), l)]
        check(ls, "%s: the usage has no %s:\n%s", what, o, text[-1500:])
        if o in given:
            continue
        if t == "i":
            check(any(re.search(r"(?<!\d)%d(?!\d)" % dflt, l) for l in ls), "%s: the usage does not give the "
                  "default %d of %s: %s", what, dflt, o, ls)
        else:
            check(any(re.search(r"\((0|false|off|no)\)|=\s*(0|false|off|no)\b|default.*(0|false|off|no)\b", l, re.I)
                      for l in ls), "%s: the usage does not give the default (off) of %s: %s", what, o, ls)


def close_field(f, ref, what, rel=6e-6, tol=1e-200):
    f = np.array(f)
    bad = ~(np.abs(f - ref) <= rel * np.abs(ref) + tol)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        check(False, "%s: cell %d of the written field is %r, expected %r", what, i, float(f[i]), float(ref[i]))


def ints_after(text, pattern):
    for l in text.split("\n"):
        m = re.search(pattern, l, re.I)
        if m:
            return [int(x) for x in re.findall(r"-?\d+", l[m.end():])]
    return None


def judge_upwind(r, prog, n, steps, vtk, std):
    """Any upwind program that was to run."""
    check(r.rc == 0, "%s: exit status %s\n%s\n%s", r.what, r.rc, r.out[-800:], r.err[-1500:])
    s = r.sums()
    check(s and all(abs(x - 1) <= 1e-5 for x in s), "%s: check sums %s\n%s", r.what, s, r.out[-800:])
    lab = []
    cells = ints_after(r.out, r"^\s*number of cells\s*:")
    check(cells is None or cells == [n] * 3, "%s: says the number of cells is %s", r.what, cells)
    k = ints_after(r.out, r"^\s*number of time steps\s*:")
    check(k is None or k == [steps], "%s: says the number of steps is %s", r.what, k)
    if prog not in cl.MPI:
        check(cells and k, "%s: does not echo the problem:\n%s", r.what, r.out[-800:])
    it = re.findall(r"^\s*iter\s+(\d+)", r.out, re.M)
    if it:
        check(len(it) == steps, "%s: %d iterations", r.what, len(it))
    x = r.after(r"\bstd\b")
    check(bool(x) == std, "%s: std %s", r.what, "is missing" if std else "was not asked for: %s" % x)
    if std:
        w = std_of(n, steps)
        check(abs(x[0] - w) <= 6e-6 * w + 6e-6 / n ** 3, "%s: std %s, expected %r", r.what, x, w)
        lab.append("std")
    name, more = cl.VTK[prog]
    want = sorted([name] + more) if vtk else []
    check(r.files == want, "%s: files %s, expected %s", r.what, r.files, want)
    if vtk:
        lab.append("vtk")
        for m, kk in [(name, steps)] + [(m, 0) for m in more]:
            f = r.field(m)
            if f is not None:
                check(len(f) == n ** 3, "%s: %d values in %s for %d cells", r.what, len(f), m, n ** 3)
                close_field(f, field_of(n, kk), r.what + ", " + m)
    return lab


@st.composite
def cxx_case(draw):
    p = draw(st.sampled_from(cl.CXX))
    return {"prog": p, "args": draw(line(p))}


def run_cxx(env, c):
    p = c["prog"]
    refused, v, given = parse(p, c["args"])
    r = cl.run(env, p, c["args"], threads=2)
    if refused or v["-h"]:
        judge_refused(p, r.out, r.err, r.rc, r.files, r.what, refused, given)
        lab = ["refused" if refused else "help"]
    else:
        lab = judge_upwind(r, p, v["-numCells"], v["-numSteps"], v["-vtk"], v.get("-std", False))
        lab += ["ran"] + ["default " + o for o in ("-numCells", "-numSteps") if o not in given]
    return Result(bool(c["args"]), [p + ": " + x for x in lab])


@st.composite
def mpi_case(draw, real):
    p = draw(st.sampled_from(["laplacian", "upwindMpiCxx"]))
    a = draw(line(p))
    _, v, _ = parse(p, a)
    n, d = v["-numCells"], v.get("-numDims", 3)
    top = 4
    if n > 100 and d == 3:
        top = 1
    good = [r for r in range(1, top + 1) if dc.valid_decomps(r, [n] * d)]
    return {"prog": p, "args": a, "ranks": draw(st.sampled_from(good)),
            "sched": None if real else draw(mc.SCHED)}


def run_mpi(env, c):
    p, n = c["prog"], c["ranks"]
    if c["sched"] is not None:
        lib = {"laplacian": "laplacian", "upwindMpiCxx": "upmpi"}[p]
        what = "%s %s on %d simulated ranks (schedule %s)" % (p, " ".join(c["args"]), n, c["sched"])
        cwd = mc.mock_cwd(env, lib)
        if os.path.isdir(cwd):
            mc.clean_dir(cwd)
        m = mc.mock_run(env, lib, n, c["sched"], lib + "_main", [p] + c["args"], what)
        check(not m.errors, "%s: %s", what, m.errors)
        r = cl.Ran(max(m.exit), "\n".join(m.out), "\n".join(m.err), sorted(os.listdir(cwd)), cwd, what)
    else:
        r = cl.run(env, p, c["args"], threads=1, ranks=n)
    refused, v, given = parse(p, c["args"])
    if refused or v["-h"]:
        judge_refused(p, r.out, r.err, r.rc, r.files, r.what, refused, given)
        lab = ["refused" if refused else "help"]
    elif p == "laplacian":
        lab = judge_laplacian(r, v["-numCells"], v["-numDims"], v["-vtk"]) + ["ran"]
        lab += ["default " + o for o in ("-numCells", "-numDims") if o not in given]
    else:
        lab = judge_upwind(r, p, v["-numCells"], v["-numSteps"], v["-vtk"], False) + ["ran"]
        lab += ["default " + o for o in ("-numCells", "-numSteps") if o not in given]
    return Result(bool(c["args"]), [p + ": " + x for x in lab])


def judge_laplacian(r, n, d, vtk):
    check(r.rc == 0, "%s: exit status %s\n%s\n%s", r.what, r.rc, r.out[-800:], r.err[-1500:])
    check(r.sums(), "%s: no check sum was printed:\n%s", r.what, r.out[-800:])
    check(r.files == (["laplacian.vtk"] if vtk and d <= 3 else []), "%s: files %s", r.what, r.files)
    if not (vtk and d <= 3):
        return []
    f = r.field("laplacian.vtk")
    if f is None:
        return ["no field read"]
    check(len(f) == n ** d, "%s: %d values for %d cells", r.what, len(f), n ** d)
    ref = um.laplacian_ten(n, d).reshape(-1)      # the same for every order of the axes
    close_field(f, ref, r.what, tol=1e-14 * (4.0 * d) ** 10)
    return ["vtk"]


NOT_INT = ["abc", "4x", "2.5", "vtk", "-x", "1e3", "--5", "n", "-h", "x4"]


@st.composite
def positional_case(draw, progs):
    p = draw(st.sampled_from(progs))
    k = draw(st.sampled_from([0, 1, 2, 2, 3, 3, 3, 3, 4]))
    n, steps = draw(st.integers(1, 12)), draw(st.integers(0, 30))
    odd = draw(st.sampled_from([0] * 8 + [1, 2]))
    if odd == 1:
        n, steps = draw(st.integers(1, 2)), draw(MANY) // (10 if p.endswith(".py") else 1)
    elif odd == 2:
        n, steps = draw(st.integers(13, 48)), draw(st.integers(0, 2))
    a = [spelling(draw, n), spelling(draw, steps),
         draw(st.sampled_from(["vtk", "vtk", "vtk", "VTK", "no", "-vtk", "1", "vtkx", "v"])),
         draw(st.sampled_from(["vtk", "5", "x"]))][:k]
    if a and draw(st.sampled_from([False] * 6 + [True])):
        a[0] = draw(st.sampled_from(NOT_INT))
    if p == "upwind.py" and len(a) == 1 and a[0].isdigit() and int(a[0]) > 6:
        a[0] = "6"
    return {"prog": p, "args": a}


def run_positional(env, c):
    p, a = c["prog"], c["args"]
    r = cl.run(env, p, a, threads=2, ranks=c.get("ranks"))
    if not a or not a[0].isdigit():
        check(r.rc is not None and 0 <= r.rc < 128, "%s: ended with status %s\n%s", r.what, r.rc, r.err[-1500:])
        text = r.out + r.err
        check(not cl.SUM.search(text), "%s: a check sum was printed:\n%s", r.what, text[-1500:])
        check(not r.files, "%s: wrote %s", r.what, r.files)
        if not a:
            check(re.search(r"number of cells", text, re.I), "%s: does not say what is missing:\n%s", r.what,
                  text[-1500:])
        else:
            check(r.err.strip() or re.search(r"number of cells in|error|invalid", text, re.I),
                  "%s: does not say what is wrong:\n%s", r.what, text[-1500:])
        return Result(True, [p + (": no cells" if not a else ": not a number")])
    steps = int(a[1]) if len(a) > 1 else 100
    vtk = len(a) > 2 and a[2] == "vtk"
    lab = judge_upwind(r, p, int(a[0]), steps, vtk, False) + ["ran"]
    if len(a) == 1:
        lab.append("default steps")
    return Result(True, [p + ": " + x for x in lab])


@st.composite
def mpi_py_case(draw):
    c = draw(positional_case(["upwindMPI.py"]))
    n = int(c["args"][0]) if c["args"] and c["args"][0].isdigit() else 1
    c["ranks"] = draw(st.sampled_from([r for r in range(1, 5) if dc.valid_decomps(r, [n] * 3)]))
    return c


@st.composite
def matmult_case(draw):
    return {"args": [draw(st.one_of(st.integers(1, 40).map(str), st.integers(1, 9).map(str), st.sampled_from(
        NOT_INT + ["/", ",", "3,", "2*3", "+", "1 x", "7/"]))) for _ in range(draw(st.integers(0, 5)))]}


def run_matmult(env, c):
    r = cl.run(env, "matmult", c["args"], threads=2)
    want = [3, 4, 5]
    for i, w in enumerate(c["args"][:3]):
        if re.match(r"[+-]?\d+\Z", w):
            want[i] = int(w)
    check(r.rc == 0, "%s: exit status %s\n%s", r.what, r.rc, r.err[-1500:])
    got = ints_after(r.out, r"sizes\s*:")
    check(got == want, "%s: says the matrix sizes are %s, expected %s\n%s", r.what, got, want, r.out)
    check("SUCCESS" in r.out, "%s: no SUCCESS: %s", r.what, r.out)
    check(not r.files, "%s: wrote %s", r.what, r.files)
    return Result(bool(c["args"]), ["matmult"])


def targets(ctx):
    ex = [{"prog": p, "args": a} for p in cl.CXX for a in (["-h"], ["-numCellz", "3"], ["-numCells", "6"])]
    ex += [{"prog": p, "args": ["-numSteps", "1"] + (["-std"] if p in cl.HAS_STD else [])} for p in cl.CXX]
    mex = [{"prog": p, "args": a, "ranks": 2, "sched": sc} for p, a in (
        ("laplacian", ["-numDims", "1", "-vtk"]), ("laplacian", ["-numCells", "6", "-vtk"]), ("laplacian", ["-h"]),
        ("upwindMpiCxx", ["-numSteps", "1"]), ("upwindMpiCxx", ["-numCells", "4"]), ("upwindMpiCxx", ["-h"]),
        ("laplacian", ["-nd", "2"]), ("upwindMpiCxx", ["-std"])) for sc in ([1, 1, 1, 1],)]
    out = [Target("cxx", cxx_case(), run_cxx, 700, 16000, examples=ex),
           Target("fortran", positional_case(cl.FORTRAN), run_positional, 400, 8000,
                  examples=[{"prog": p, "args": a} for p in cl.FORTRAN for a in ([], ["5"], ["abc", "3"])]),
           Target("python", positional_case(cl.PYTHON), run_positional, 80, 2000,
                  examples=[{"prog": "upwind.py", "args": a} for a in ([], ["4"])]),
           Target("matmult", matmult_case(), run_matmult, 200, 6000),
           Target("mpi-python", mpi_py_case(), run_positional, 24, 800, weight=5,
                  examples=[{"prog": "upwindMPI.py", "args": [], "ranks": 2}])]
    real = 24
    if "laplacian" in ctx.lib and "upmpi" in ctx.lib:
        out.append(Target("mpi-simulated", mpi_case(False), run_mpi, 400, 10000, examples=mex))
    else:
        real = 120
    out.append(Target("mpi-real", mpi_case(True), run_mpi, real, 1000, weight=5,
                      examples=[dict(e, sched=None) for e in mex]))
    return out
