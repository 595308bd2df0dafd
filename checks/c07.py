"""C07: time steps compose and the solver respects the problem's symmetries."""
import numpy as np
from hypothesis import strategies as st

from checks import upwind_common as uc
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("Per solver (C++, Fortran, Python) and generated problem, one metamorphic relation: splitting the "
        "steps a+b (with zero-step calls between), relabelling the axes, reversing axes with the sign of "
        "their velocity, rescaling lengths with velocities, rescaling velocities against the time step, or "
        "two to three solver objects (half of them on the same grid) created, advanced, read and destroyed in "
        "an interleaved history "
        "against each one alone. No reference scheme is involved: runs of the same solver are compared. "
        "A case is non-trivial when the field has moved (an axis of several cells with a velocity, at "
        "least one step) and the relation is not the identity.")
ASSUMPTIONS = ["runs agree up to rounding: 16 eps (1 + 2 C) per step times the amplification of the scheme",
               "the MPI solvers are compared with the scheme itself in C04, C08 and C10"]
RELATIONS = ["compose", "compose", "order", "axes", "reverse", "lengths", "time", "independent", "independent"]


def prepare(ctx):
    ctx.impls = uc.build_impls(ctx, uc.CXX + uc.FORTRAN + uc.PYTHON)


@st.composite
def case(draw, impl):
    rel = draw(st.sampled_from(RELATIONS))
    nd = draw(uc.dims_for(impl))
    nd = min(nd, 4)
    p = draw(uc.problem(nd, 200))
    dt = draw(uc.time_step(p))
    c = {"impl": impl, "rel": rel, "p": p, "dt": dt, "steps": draw(st.integers(0, 12)),
         "thr": draw(st.sampled_from([1, 2, 3])) if impl in uc.THREADED else 1}
    if rel == "compose":
        c["parts"] = draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 5]), min_size=1, max_size=5))
        c["steps"] = sum(c["parts"])
    elif rel == "order":
        c["segs"] = [[draw(st.integers(1, 5)), draw(uc.time_step(p))] for _ in range(draw(st.integers(2, 3)))]
        c["perm"] = list(draw(st.permutations(range(len(c["segs"])))))
    elif rel == "axes":
        c["perm"] = list(draw(st.permutations(range(nd))))
    elif rel == "reverse":
        c["flip"] = [draw(st.booleans()) for _ in range(nd)]
    elif rel in ("lengths", "time"):
        c["factor"] = draw(st.sampled_from([2.0, 0.5, 3.0, 0.1, 1024.0, 7.3]))
        c["axis"] = draw(st.integers(0, nd - 1))
    else:
        c["others"] = []
        for _ in range(draw(st.integers(1, 2))):
            q = draw(uc.problem(3 if impl in uc.ONLY3 else draw(st.integers(1, 4)), 150))
            if draw(st.booleans()):
                q = draw(uc.related(p))
            c["others"].append([q, draw(uc.time_step(q))])
        c["hist"] = draw(st.lists(st.tuples(st.integers(0, len(c["others"])), st.sampled_from(
            ["adv", "adv", "adv", "f", "sum", "new", "del"]), st.integers(0, 3)).map(list),
            min_size=2, max_size=14))
    return c


def final(env, c, p, segs, what):
    ops = [["thr", c["thr"]], ["new", 0, p["v"], p["l"], p["n"]]] + \
        [["adv", 0, k, dt] for k, dt in segs] + [["f", 0]]
    f = uc.run_ops(env, c["impl"], ops, what).f()
    check(len(f) == 1, "%s: no field", what)
    return f[0][2]


def run(env, c):
    p, dt, n = c["p"], c["dt"], c["steps"]
    what = "%s, cells %s lengths %s velocity %s dt %r steps %d threads %d" % (
        c["impl"], p["n"], p["l"], p["v"], dt, n, c["thr"])
    moved = uc.nontrivial(p, [(n, dt)])
    if c["rel"] == "independent":
        return independent(env, c, what)
    base = c["segs"] if c["rel"] == "order" else [[n, dt]]
    a = final(env, c, p, base, what)
    tol = 2 * uc.tolerance(p, base)
    q, segs, back = p, base, None
    trivial = False
    if c["rel"] == "compose":
        segs = [[k, dt] for k in c["parts"]]
        what += " in parts %s" % c["parts"]
        trivial = len([k for k in c["parts"]]) < 2
    elif c["rel"] == "order":
        segs = [base[i] for i in c["perm"]]
        what = "%s, cells %s lengths %s velocity %s threads %d steps %s and then %s" % (
            c["impl"], p["n"], p["l"], p["v"], c["thr"], base, segs)
        moved = uc.nontrivial(p, base)
        trivial = segs == base
    elif c["rel"] == "axes":
        pm = c["perm"]
        q = {k: [p[k][i] for i in pm] for k in ("n", "l", "v")}
        what += " with axes in the order %s" % pm
        trivial = pm == sorted(pm)

        def back(g):
            inv = np.argsort(pm)
            return g.reshape(q["n"]).transpose(inv)
    elif c["rel"] == "reverse":
        q = dict(p, v=[-v if fl else v for v, fl in zip(p["v"], c["flip"])])
        what += " with axes reversed %s" % c["flip"]
        trivial = not any(fl and v != 0 and m > 2 for fl, v, m in zip(c["flip"], p["v"], p["n"]))

        def back(g):
            g = g.reshape(p["n"])
            for j, fl in enumerate(c["flip"]):
                if fl:
                    g = np.roll(np.flip(g, j), 1, j)
            return g
    elif c["rel"] == "lengths":
        s, j = c["factor"], c["axis"]
        q = dict(p, l=[x * s if i == j else x for i, x in enumerate(p["l"])],
                 v=[x * s if i == j else x for i, x in enumerate(p["v"])])
        what += " with axis %d rescaled by %g" % (j, s)
        trivial = p["v"][j] == 0
    elif c["rel"] == "time":
        s = c["factor"]
        q = dict(p, v=[x * s for x in p["v"]])
        segs = [[n, dt / s]]
        what += " with velocities times %g and dt over %g" % (s, s)
    b = final(env, c, q, segs, what)
    check(a.size == b.size == int(np.prod(p["n"])), "%s: fields of %d and %d values", what, a.size, b.size)
    if back:
        b = np.ascontiguousarray(back(b)).reshape(-1)
    bad = ~(np.abs(a - b) <= tol)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        check(False, "%s: cell %d is %r directly and %r by the relation '%s'", what, i, float(a[i]),
              float(b[i]), c["rel"])
    if c["rel"] == "compose" and n == 0:
        want = np.zeros(a.size)
        want[0] = 1.0
        check(np.array_equal(a, want) and np.array_equal(b, want), "%s: zero steps changed the field",
              what)
    return Result(moved and not trivial, [c["rel"]] + (["zero steps"] if n == 0 else []), 1)


def independent(env, c, what):
    probs = [[c["p"], c["dt"]]] + c["others"]
    nslots = len(probs)
    live = set()
    per = {k: [] for k in range(nslots)}
    mixed = []

    def do(k, op):
        mixed.append([op[0], k] + op[2:])
        per[k].append([op[0], 0] + op[2:])
    for k, (p, dt) in enumerate(probs):
        do(k, ["new", k, p["v"], p["l"], p["n"]])
        live.add(k)
    steps = [0] * nslots
    most = [0] * nslots
    for k, op, m in c["hist"]:
        p, dt = probs[k]
        if op == "new" or k not in live:
            do(k, ["new", k, p["v"], p["l"], p["n"]])
            live.add(k)
            steps[k] = 0
        elif op == "adv":
            do(k, ["adv", k, m, dt])
            steps[k] += m
            most[k] = max(most[k], steps[k])
        elif op == "del":
            if len(live) > 1:
                do(k, ["del", k])
                live.discard(k)
        else:
            do(k, [op, k])
    for k in sorted(live):
        do(k, ["f", k])
    thr = [["thr", c["thr"]]]
    got = uc.run_ops(env, c["impl"], thr + mixed, what + " interleaved with others: %s" % mixed)
    n = 0
    for k in range(nslots):
        alone = uc.run_ops(env, c["impl"], thr + per[k], what + " (object %d alone)" % k)
        mine = [a for a in got if a[1] == k]
        check(len(alone) == len(mine), "%s: answers missing", what)
        tol = 2 * uc.tolerance(probs[k][0], [[most[k], probs[k][1]]])
        size = int(np.prod(probs[k][0]["n"]))
        for x, y in zip(mine, alone):
            d = np.max(np.abs(np.atleast_1d(x[2]) - np.atleast_1d(y[2]))) \
                if np.size(x[2]) == np.size(y[2]) else np.inf
            check(d <= tol * (size if x[0] == "sum" else 1), "%s: object %d (%s) differs by %g from the same "
                  "object alone in the history %s", what, k, probs[k], d, mixed)
            n += 1
    moved = [k for k in range(nslots) if uc.nontrivial(probs[k][0], [(most[k], probs[k][1])])]
    return Result(len(moved) > 1, ["independent"], n)


def targets(ctx):
    return [Target(m, case(m), run, 700 if m != "upwind.py" else 500, 20000) for m in ctx.impls]
