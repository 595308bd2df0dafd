"""C17: structured-grid VTK output is well formed and reproduces the field."""
import itertools
import math
import os

from hypothesis import strategies as st

from checks import mpi_common as mc
from checks.common_lib import build_servers
from vlib import vtk
from vlib.core import Result, Target, Violation
from vlib.util import ask, check, hx, num

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("Uniform grids of 1-3 axes (4-6 for the refusal), any box (negative corners, reversed or tiny "
        "extents), fields of any magnitude and sign, written by writeVTK directly and by "
        "Filter::saveVTK on 1..64 ranks (simulated MPI, seeded schedule); the file is read back by an "
        "independent strict reader. A case is non-trivial when the grid has at least two cells and "
        "the field is not constant.")
ASSUMPTIONS = ["values are compared to the six digits the files print; the array name has no blanks",
               "in the distributed case MPI is the simulation of harness/mockmpi (see C09)"]


def prepare(ctx):
    ctx.exe = build_servers(ctx, ["vtk"])["vtk"]
    mc.build_mock(ctx, ("filter",), real=True)


VAL = st.one_of(st.floats(-1, 1), st.floats(allow_nan=False, allow_infinity=False),
                st.sampled_from([0.0, -0.0, 1.0, 1e-300, -1e-308, 5e-324, 1e308, 123456.5, 1e-5]),
                st.integers(-10**6, 10**6).map(float))


def close(got, want, scale, rel=1e-5):
    return abs(got - want) <= rel * abs(want) + 1e-12 * scale or got == want


def verify_file(path, dims, lo, hi, value_at, name=None, tol_at=None):
    """value_at(i, j, k): the expected value of a cell (up to tol_at(i, j, k) besides the print)."""
    try:
        v = vtk.read(path)
    except vtk.Bad as e:
        raise_bad(str(e), path)
    check(v["kind"] == "STRUCTURED_GRID", "kind %s", v["kind"])
    nd = len(dims)
    n3 = list(dims) + [1] * (3 - nd)
    check(v["dims"] == [n + 1 for n in n3], "DIMENSIONS %s for a grid of %s cells", v["dims"], dims)
    if name is not None:
        check(v["name"] == name, "array is called %r, not %r", v["name"], name)
    L = list(lo) + [0.0] * (3 - nd)
    H = list(hi) + [1.0] * (3 - nd)
    scale = max([abs(x) for x in list(lo) + list(hi)] + [0.0])
    it = iter(v["points"])
    for k, j, i in itertools.product(*[range(n3[a] + 1) for a in (2, 1, 0)]):
        p = next(it)
        for a, q in enumerate((i, j, k)):
            if a >= nd:
                continue        # the extent of a missing axis is arbitrary
            want = L[a] + (H[a] - L[a]) * q / n3[a]
            check(close(p[a], want, scale), "vertex (%d,%d,%d) has coordinate %d = %r, expected %r",
                  i, j, k, a, p[a], want)
    it = iter(v["cells"])
    for k, j, i in itertools.product(*[range(n3[a]) for a in (2, 1, 0)]):
        g = next(it)
        w = value_at(i, j, k)
        check(close(g, w, 0.0) or (tol_at and abs(g - w) <= 1e-5 * abs(w) + tol_at(i, j, k)) or (abs(w) < 1e-300 and abs(g - w) <= 1e-305),
              "cell (%d,%d,%d) has value %r, expected %r", i, j, k, g, w)


def raise_bad(msg, path):
    with open(path, errors="replace") as f:
        text = f.read()
    check(False, "not a well formed file: %s\n%s", msg, text[:1500])


@st.composite
def grids(draw, nd, big=False):
    dims = []
    for _ in range(nd):
        dims.append(draw(st.integers(1, 60 if nd == 1 else 9 if nd == 2 else 5)))
    if big:
        dims = [draw(st.integers(1, 5000 if nd == 1 else 110 if nd == 2 else 20)) for _ in range(nd)]
    lo, hi = [], []
    for _ in range(nd):
        a = draw(st.one_of(st.integers(-3, 3).map(float), st.floats(-1e6, 1e6), st.just(0.0)))
        w = draw(st.one_of(st.just(1.0), st.floats(1e-3, 1e3), st.integers(1, 5).map(float)))
        lo.append(a)
        hi.append(a + w)
    if draw(st.integers(0, 4)) == 0:        # lengths in other units; their digits fill the lines
        k = draw(st.one_of(st.integers(-280, 280), st.sampled_from([-105, 105, -40, 40])))
        if draw(st.booleans()):
            lo = [-draw(st.floats(2, 9)) for _ in lo]
            hi = [x / 1.9 for x in lo]
        lo, hi = [x * 10.0 ** k for x in lo], [x * 10.0 ** k for x in hi]
    return dims, lo, hi


@st.composite
def direct_case(draw):
    nd = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]))
    if nd > 3:
        dims = [draw(st.integers(1, 3)) for _ in range(nd)]
        lo, hi = [0.0] * nd, [1.0] * nd
    else:
        big = draw(st.integers(0, 60)) == 0
        dims, lo, hi = draw(grids(nd, big))
    n = math.prod(dims)
    kind = draw(st.integers(0 if n < 200 else 1, 2))
    if kind == 0:
        f = draw(st.lists(VAL, min_size=n, max_size=n))
    elif kind == 1:     # all different
        base = draw(st.floats(-100, 100))
        f = [base + 1.25 * k for k in range(n)]
    else:
        a = draw(VAL)
        f = [a * (-1) ** k / (k + 1) for k in range(n)]
    return {"dims": dims, "lo": lo, "hi": hi, "f": f,
            "name": draw(st.sampled_from(["outData", "f", "T_2", "x"])),
            "exists": draw(st.booleans())}


def run_direct(env, c):
    srv = env.server("vtk", [env.ctx.exe])
    d = env.fresh_dir()
    path = os.path.join(d, "field.vtk")
    old = "an older file\n" * 400
    if c["exists"]:
        with open(path, "w") as f:
            f.write(old)
    nd = len(c["dims"])
    line = [hx(path), hx(c["name"]), str(nd)] + [str(x) for x in c["dims"]] + \
        [num(x) for x in c["lo"]] + [num(x) for x in c["hi"]] + [str(len(c["f"]))] + \
        [num(x) for x in c["f"]]
    ask(srv, " ".join(line), "writeVTK dims=%s" % c["dims"])
    others = [x for x in os.listdir(d) if x != "field.vtk"]
    check(not others, "also wrote %s", others)
    if nd > 3:
        if c["exists"]:
            with open(path) as f:
                check(f.read() == old, "%d dimensions: the existing file was changed", nd)
        else:
            check(not os.path.exists(path), "%d dimensions: a file was written", nd)
        return Result(True, ["more than 3 dimensions"])
    check(os.path.exists(path), "no file was written")
    n3 = list(c["dims"]) + [1] * (3 - nd)

    def at(i, j, k):
        return c["f"][i + n3[0] * (j + n3[1] * k)]
    verify_file(path, c["dims"], c["lo"], c["hi"], at, c["name"])
    labels = ["%d-d" % nd] + (["unequal axes"] if len(set(c["dims"])) == nd > 1 else []) + \
        (["axis of 1"] if 1 in c["dims"] else [])
    return Result(len(c["f"]) > 1 and len(set(c["f"])) > 1, labels)


def check_saved(case, expect, d):
    n = 0
    for e in expect:
        if e[0] != "vtk":
            continue
        f = case["filters"][e[1]]
        nd = len(f["dims"])
        if nd > 3:
            check(not os.path.exists(e[2]), "%d dimensions: a file was written", nd)
            continue
        check(os.path.exists(e[2]), "no file was written by saveVTK")
        v, m = e[3]

        def pick(a):
            return lambda i, j, k: float(a[(i, j, k)[:nd]])
        tol = m * 1e-11
        try:
            verify_file(e[2], f["dims"], f["lo"], f["hi"], pick(v), None, pick(tol))
        except Violation as x:
            raise Violation("saveVTK of grid %s on %d ranks: %s" % (f["dims"], case["n"], x)) from None
        n += 1
        os.unlink(e[2])
    left = [x for x in os.listdir(d) if x != "script"]
    check(not left, "saveVTK also left %s", left)
    return n


def run_filter(env, c):
    ev = mc.run_mock_case(env, c, False, check_saved)
    return Result(mc.nontrivial(c) and any(o[0] == "vtk" for o in c["ops"]), mc.labels_of(c), ev)


@st.composite
def real_vtk_batch(draw):
    b = draw(mc.real_batch(k=4, max_dims=3))
    for c in b["cases"]:
        for k in range(len(c["filters"])):
            names = [o[0] for o in c["ops"] if o[1] == k]
            if "del" not in names and "apply" in names:
                c["ops"].append(["vtk", k])
    return b


def run_real(env, b):
    n = [0]
    ev = mc.run_real_batch(env, b, lambda c, e, d: n.__setitem__(0, n[0] + check_saved(c, e, d)))
    return Result(n[0] > 0, ["real MPI"], ev + n[0])


def targets(ctx):
    out = [Target("writeVTK", direct_case(), run_direct, 6000, 150000)]
    real = 24
    if "filter" in ctx.lib:
        out.append(Target("saveVTK-simulated-many-ranks",
                          mc.filter_case(min_ranks=13, max_ranks=64, max_cells=300, max_dims=3, vtk=True, nfilters=(1,),
                                         max_ops=3), run_filter, 120, 4000, weight=2))
        out.append(Target("saveVTK-simulated-mpi",
                          mc.filter_case(max_ranks=12, max_cells=100, max_dims=4, vtk=True,
                                         nfilters=(1, 1, 2), max_ops=4), run_filter, 2000, 60000))
    else:
        real = 100
    out.append(Target("saveVTK-real-mpi", real_vtk_batch(), run_real, real, real * 25, weight=5))
    return out
