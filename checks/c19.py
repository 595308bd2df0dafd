"""C19: the matrix products are correct and the program's verdict is true."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks import cli_common as cl
from checks.c16 import NOT_INT, ints_after
from vlib import build
from vlib.core import Result, Target
from vlib.util import ask, check

PROPERTY = "C19"
LEVEL = "exploration"
RULE = ("Both routines on generated matrices (0-60 rows and columns, mostly small; integers, for which the "
        "product is exact, reals of any sign and size, special patterns; contiguous or strided arrays; 1-8 "
        "threads; the result array preset), against exact integer or bounded-error products, with the "
        "operands and what lies between the strided elements unchanged; initmat for generated sizes, up to 60 million elements; the "
        "program with 0-5 arguments, integer or not; and the program linked with a stand-in for one of the "
        "routines, which adds generated errors (in part cancelling, in part none): SUCCESS exactly when "
        "there is none. A case is non-trivial when no size is below 2 (products) or something is added or "
        "given (program).")
ASSUMPTIONS = ["products of reals: within (m + 2) eps times the product of the magnitudes",
               "injected errors are at least 1e-3 (the program's threshold is 1e-10), and finite",
               "an empty argument ends the command line; sizes are at least one in the program"]
FLAGS = ["-O2", "-g", "-DNDEBUG", "-fopenmp"]


def prepare(ctx):
    F = ["gfortran", *FLAGS, *build.DEFS]
    md = ctx.path("mm_mod")
    os.makedirs(md)
    src = build.src("matmult", "fortran", "matmult.F90")
    exe = ctx.path("mm")
    ctx.prog = {"matmult": [ctx.path("matmult")]}
    jobs = {"server": build.seq(F + ["-J" + md, "-c", "-o", exe + ".o", src], ["objcopy", "-W", "main", exe + ".o"],
                                F + ["-I" + md, "-c", "-o", exe + "_d.o", build.h("srv_matmult.F90")],
                                F + ["-o", exe, exe + "_d.o", exe + ".o"]),
            "program": lambda: os.makedirs(ctx.path("mp")) or build.run(
                F + ["-J" + ctx.path("mp"), "-o", ctx.prog["matmult"][0], src])}
    for w in (0, 1):
        o = ctx.path("fault%d" % w)
        sym = "__matmult_mod_MOD_matmult%d" % w
        os.makedirs(o + "_m")
        jobs["fault%d" % w] = build.seq(
            ["gfortran", "-O0", "-g", "-fopenmp", "-fno-inline", *build.DEFS, "-J" + o + "_m", "-c", "-o", o + ".o", src],
            ["objcopy", "-W", sym, o + ".o"],
            ["gfortran", "-O0", "-c", "-o", o + "_x.o", build.h("matmult_fault.F90")],
            ["objcopy", "--redefine-sym", "matmultx_=" + sym, o + "_x.o"],
            ["gfortran", "-fopenmp", "-o", o, o + "_x.o", o + ".o"])
        ctx.prog["fault%d" % w] = [o]
    res = build.parallel(jobs)
    build.require(res, "program")
    ctx.have = {k: res[k] is None for k in jobs}
    for k, e in res.items():
        if e is not None:
            ctx.note("no harness %s: %s" % (k, str(e)[-600:]))


SIZE = st.one_of(st.integers(1, 6), st.integers(1, 14), st.sampled_from([0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 33]))


@st.composite
def mul_case(draw):
    n, m, el = draw(SIZE), draw(SIZE), draw(SIZE)
    if draw(st.sampled_from([False] * 12 + [True])):
        n, m, el = [draw(st.integers(20, 60)) for _ in range(3)]
    elif draw(st.sampled_from([False] * 40 + [True])):
        # one or two long sides
        big = st.one_of(st.sampled_from([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513]), st.integers(60, 600))
        s = [draw(big), draw(st.one_of(big.map(lambda x: min(x, 300)), st.integers(1, 8))), draw(st.integers(1, 8))]
        n, m, el = draw(st.permutations(s))
    kind = draw(st.sampled_from(["int", "int", "real", "unit", "mixed"]))
    return {"which": draw(st.sampled_from([0, 1, 1])), "n": n, "m": m, "el": el, "kind": kind,
            "seed": draw(st.integers(0, 10**9)), "thr": draw(st.sampled_from([1, 2, 3, 8])),
            "stride": draw(st.sampled_from([1, 1, 2, 3]))}


def matrices(c):
    rng = np.random.default_rng(c["seed"])
    out = []
    for s in ((c["n"], c["m"]), (c["m"], c["el"])):
        if c["kind"] == "int":
            x = rng.integers(-1000, 1000, s).astype(float)
        elif c["kind"] == "real":
            x = rng.standard_normal(s) * 10.0 ** rng.integers(-20, 20, s)
        elif c["kind"] == "unit":
            x = np.zeros(s)
            for _ in range(int(rng.integers(1, 4))):
                if x.size:
                    x[int(rng.integers(0, s[0])), int(rng.integers(0, s[1]))] = float(rng.integers(1, 9))
        else:
            x = rng.standard_normal(s) * (rng.random(s) < 0.6)
        out.append(x)
    return out


def parse(out, shapes):
    vals = [float(x) for x in out]
    res = []
    for s in shapes:
        k = s[0] * s[1]
        check(len(vals) >= k, "harness: %d values", len(out))
        res.append(np.array(vals[:k]).reshape(s[1], s[0]).T)
        vals = vals[k:]
    check(not vals, "harness: extra values")
    return res


def run_mul(env, c):
    n, m, el, s = c["n"], c["m"], c["el"], c["stride"]
    a, b = matrices(c)
    what = "matmult%d (%d x %d) (%d x %d), %s matrices of seed %d, stride %d, %d threads" % (
        c["which"], n, m, m, el, c["kind"], c["seed"], s, c["thr"])
    srv = env.server("mm", [env.ctx.path("mm")], env=build.env(OMP_DYNAMIC="false"))

    def flat(x):
        return " ".join(repr(float(v)) for v in x.T.reshape(-1)) or "/"
    out = ask(srv, "mul %d %d %d %d %d %d\n%s\n%s" % (c["which"], n, m, el, c["thr"], s, flat(a), flat(b)), what)
    C, A, B = parse(out, ((s * n, s * el), (s * n, s * m), (s * m, s * el)))
    got = C[::s, ::s]
    ref = a @ b if c["kind"] != "int" else (a.astype(int) @ b.astype(int)).astype(float)
    tol = 0 if c["kind"] == "int" else (m + 2) * 2.3e-16 * 2 * (np.abs(a) @ np.abs(b))
    bad = ~(np.abs(got - ref) <= tol)
    if bad.any():
        i, k = [int(x) for x in np.argwhere(bad)[0]]
        check(False, "%s: element (%d, %d) is %r, the product has %r (%d elements differ)", what, i + 1, k + 1,
              float(got[i, k]), float(ref[i, k]), int(bad.sum()))
    check(np.array_equal(A[::s, ::s], a) and np.array_equal(B[::s, ::s], b), "%s: changed its operands", what)
    for x, v, name in ((A, -77.0, "a"), (B, -77.0, "b"), (C, -12345.678, "c")):
        keep = np.ones(x.shape, bool)
        keep[::s, ::s] = False
        check((x[keep] == v).all(), "%s: wrote between the elements of %s", what, name)
    return Result(min(n, m, el) >= 2, ["matmult%d" % c["which"], c["kind"]] + (["strided"] if s > 1 else []) +
                  (["empty"] if min(n, m, el) == 0 else []))


@st.composite
def init_case(draw):
    return {"n": draw(SIZE), "m": draw(SIZE), "el": draw(SIZE)}


def run_init(env, c):
    n, m, el = c["n"], c["m"], c["el"]
    srv = env.server("mm", [env.ctx.path("mm")], env=build.env())
    what = "initmat for sizes %d %d %d" % (n, m, el)
    a, b = parse(ask(srv, "init %d %d %d" % (n, m, el), what), ((n, m), (m, el)))
    got = np.concatenate([a.T.reshape(-1), b.T.reshape(-1)])
    check(np.array_equal(got, np.arange(1.0, n * m + m * el + 1)), "%s: a =\n%s\nb =\n%s", what, a, b)
    return Result(min(n, m, el) >= 2, ["unequal" if len({n, m, el}) > 1 else "equal"])


@st.composite
def big_init_case(draw):
    """Up to some 60 million elements, more than 2**24 of them in most cases."""
    total = draw(st.sampled_from([70000, 3000000, 17000000, 17000000, 35000000, 60000000]))
    one = draw(st.integers(1, 6000))
    other = max(1, total // one)
    n, m, el = draw(st.sampled_from([(one, other, 1), (1, one, other), (other, one, 2), (max(1, one // 2), other, max(1, one // 2))]))
    return {"n": n, "m": m, "el": el}


def run_big_init(env, c):
    n, m, el = c["n"], c["m"], c["el"]
    srv = env.server("mm", [env.ctx.path("mm")], env=build.env())
    what = "initmat for sizes %d %d %d" % (n, m, el)
    out = ask(srv, "big %d %d %d" % (n, m, el), what)
    out = [x for line in out for x in line.split()]
    check(len(out) == 3, "harness: %s", out)
    check(out[0] == "0", "%s: %s elements differ from the consecutive numbers, the first is number %s: %s", what, *out)
    return Result(n * m + m * el > 2**24, ["above 2**24" if n * m + m * el > 2**24 else "below 2**24"])


@st.composite
def args_case(draw):
    return {"args": [draw(st.one_of(st.integers(1, 60).map(str), st.integers(1, 9).map(str), st.sampled_from(
        ["+3", "007"]), st.sampled_from(NOT_INT + ["/", ",", "3,", "2*3", "+", "-", "1 x", "7/", "1.", "0x3"])))
        for _ in range(draw(st.integers(0, 5)))]}


def sizes_of(args):
    want = [3, 4, 5]
    for i, w in enumerate(args[:3]):
        if re.match(r"[+-]?\d+\Z", w):
            want[i] = int(w)
    return want


def run_args(env, c):
    r = cl.run(env, "matmult", c["args"], threads=2)
    want = sizes_of(c["args"])
    check(r.rc == 0, "%s: exit status %s\n%s", r.what, r.rc, r.err[-1500:])
    got = ints_after(r.out, r"sizes\s*:")
    check(got == want, "%s: says the matrix sizes are %s, expected %s\n%s", r.what, got, want, r.out)
    check("SUCCESS" in r.out and "ERROR" not in r.out, "%s: no SUCCESS: %s", r.what, r.out)
    return Result(bool(c["args"]), ["%d arguments" % len(c["args"])] +
                  (["not an integer"] if any(not re.match(r"[+-]?\d+\Z", a) for a in c["args"]) else []))


@st.composite
def verdict_case(draw):
    e = []
    kind = draw(st.sampled_from(["none", "one", "one", "cancel", "several"]))
    if kind != "none":
        for k in range({"one": 1, "cancel": 1, "several": 3}[kind]):
            e.append([draw(st.integers(0, 30)), draw(st.integers(0, 30)),
                      draw(st.sampled_from([1e-3, 1.0, 1e3, 0.01])) * draw(st.sampled_from([1, -1]))])
        if kind == "cancel":
            e.append([e[0][0] + draw(st.sampled_from([0, 1])), e[0][1] + 1, -e[0][2]])
    return {"which": draw(st.integers(0, 1)), "kind": kind, "errors": e,
            "sizes": [draw(st.integers(1, 12)) for _ in range(3)]}


def run_verdict(env, c):
    n, m, el = c["sizes"]
    where = {}
    for i, k, d in c["errors"]:
        key = (i % n, k % el)
        where[key] = where.get(key, 0.0) + d
    wrong = any(abs(d) > 1e-9 for d in where.values())
    fault = os.path.join(env.dir, "fault.txt")
    with open(fault, "w") as f:
        f.write("%d\n" % len(c["errors"]) + "".join("%d %d %r\n" % tuple(x) for x in c["errors"]))
    if os.path.exists(fault + ".hit"):
        os.unlink(fault + ".hit")
    os.environ["FAULT_FILE"] = fault
    r = cl.run(env, "fault%d" % c["which"], [str(x) for x in c["sizes"]], threads=1)
    if not os.path.exists(fault + ".hit"):
        return Result(False, ["the stand-in was not called"])
    what = "matmult %s with the errors %s added to the result of matmult%d" % (c["sizes"], c["errors"], c["which"])
    said = "SUCCESS" in r.out
    check(said == (not wrong), "%s: the program says %r", what, r.out)
    if wrong:
        check(re.search("error", r.out + r.err, re.I), "%s: no error is reported: %r", what, r.out)
    return Result(bool(c["errors"]), [c["kind"]])


def targets(ctx):
    out = [Target("arguments", args_case(), run_args, 400, 12000,
                  examples=[{"args": []}, {"args": ["2"]}, {"args": ["7", "2", "9"]}])]
    if ctx.have["server"]:
        out += [Target("products", mul_case(), run_mul, 6000, 120000),
                Target("initmat", init_case(), run_init, 600, 12000),
                Target("initmat-big", big_init_case(), run_big_init, 24, 600)]
    if ctx.have["fault0"] and ctx.have["fault1"]:
        out.append(Target("verdict", verdict_case(), run_verdict, 300, 8000))
    return out
