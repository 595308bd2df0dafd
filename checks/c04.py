"""C04: Python upwind solvers (serial and MPI) compute the upwind scheme."""
from hypothesis import strategies as st

from checks import decomp_common as dc
from checks import upwind_common as uc
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("Serial solver: grids of 1-5 axes, any lengths, velocities of either sign or zero, 1-3 segments "
        "of 0-20 steps (time steps chosen by Courant number), field after every segment and check sum "
        "against an independent numpy upwind scheme. MPI solver: the same in 3 axes on 1-8 ranks (Open "
        "MPI), grids made of parts times local extents (1-5, unequal axes), the gathered field and the "
        "check sum on the root. A case is non-trivial when an axis of several cells has a velocity and "
        "at least one step of non-zero length is made.")
ASSUMPTIONS = ["agreement up to rounding: 16 eps (1 + 2 C) per step times the amplification of the scheme",
               "MPI runs go through mpiexec of the installed Open MPI: one schedule per run, chosen by the "
               "machine",
               "the distributed array package mpinum is the installed one"]


def prepare(ctx):
    ctx.impls = uc.build_impls(ctx, uc.PYTHON)


def run_serial(env, c):
    ans = uc.run_solver(env, c)
    p = c["p"]
    what = uc.describe(c)
    judge(ans, p, c["segs"], what)
    return Result(uc.nontrivial(p, c["segs"]), uc.labels(p, c["segs"]), 2 * len(c["segs"]) + 1)


def judge(ans, p, segs, what):
    fs = [a for a in ans if a[0] == "f"]
    ss = [a for a in ans if a[0] == "sum"]
    check(len(fs) == len(segs) + 1 and len(ss) == len(segs), "%s: answers missing", what)
    for k in range(len(fs)):
        ref = uc.reference(p, segs[:k])
        tol = uc.tolerance(p, segs[:k]) if k else 0.0
        w = what + " after %d segments" % k
        uc.compare_field(uc.np.array(fs[k][2]), ref, tol, w, p["n"])
        if k:
            s = float(uc.np.array(fs[k][2]).sum())
            mag = float(abs(ref).sum()) + ref.size * tol
            check(abs(ss[k - 1][2] - s) <= 1e-15 * ref.size * mag + 1e-14 * mag,
                  "%s: check sum %r, the field's sum is %r", w, ss[k - 1][2], s)


@st.composite
def mpi_case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 4, 5, 6, 8]))
    cases = []
    for _ in range(draw(st.integers(2, 6))):
        dims = [1, 1, 1]
        for q in (2, 2, 2, 3, 5):
            if n % (dc.prod(dims) * q) == 0 and dc.prod(dims) * q <= n:
                dims[draw(st.integers(0, 2))] *= q
        for j in range(3):
            dims[j] *= draw(st.integers(1, 5))
        p = dict(draw(uc.problem(3)), n=dims)
        cases.append({"p": p, "segs": draw(uc.segments(p, 6))})
    return {"ranks": n, "cases": cases}


def run_mpi(env, b):
    scripts = []
    for c in b["cases"]:
        p = c["p"]
        check(dc.valid_decomps(b["ranks"], p["n"]), "harness: no decomposition")
        ops = [["new", 0, p["v"], p["l"], p["n"]], ["f", 0]]
        for k, dt in c["segs"]:
            ops += [["adv", 0, k, dt], ["f", 0], ["sum", 0]]
        scripts.append(ops)
    res = uc.mpi_python(env, b["ranks"], scripts)
    lab = set(["%d ranks" % b["ranks"]])
    ev = 0
    for c, r in zip(b["cases"], res):
        p = c["p"]
        what = "upwindMPI.py on %d ranks, cells %s lengths %s velocity %s steps %s" % (
            b["ranks"], p["n"], p["l"], p["v"], c["segs"])
        judge(r, p, c["segs"], what)
        for a in r:
            if a[0] == "f":
                check(a[3] == list(p["n"]), "%s: the gathered field has the shape %s", what, a[3])
        lab |= set(uc.labels(p, c["segs"]))
        ev += 2 * len(c["segs"]) + 1
    return Result(any(uc.nontrivial(c["p"], c["segs"]) for c in b["cases"]), sorted(lab), ev)


def targets(ctx):
    return [Target("serial", uc.solver_case("upwind.py"), run_serial, 1600, 40000),
            Target("serial-large", uc.large_case("upwind.py"), run_serial, 24, 1000),
            Target("serial-long", uc.long_case("upwind.py"), run_serial, 48, 1600),
            Target("mpi", mpi_case(), run_mpi, 64, 1600, weight=5)]
