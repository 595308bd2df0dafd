"""C02: C++ upwind solvers compute the upwind scheme for any grid and velocity."""
from checks import upwind_common as uc
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C02"
IMPLS = uc.CXX
LEVEL = "exploration"
RULE = ("Grids of 1-5 axes (3 for the OpenACC and OpenMP-target variants, whose kernels are written for "
        "3) with 1-40 cells per axis (in part up to 40000 cells per axis, 60000 in all), any lengths, velocities of either sign or zero, 1-3 segments of "
        "0-20 steps (in part up to 4000) with time steps chosen by Courant number (mostly stable, some zero, negative or "
        "unstable), 1-4 threads; after every segment the field, cell by cell, is compared with an "
        "independent numpy upwind scheme. A case is non-trivial when an axis of several cells has a "
        "velocity and at least one step of non-zero length is made.")
ASSUMPTIONS = ["the field is read through print(), the class is driven through its public methods",
               "agreement up to rounding: 16 eps (1 + 2 C) per step times the amplification of the "
               "scheme, C the Courant number",
               "fewer than 2^31 cells; the OpenACC and OpenMP-target variants have 3 axes"]


def prepare(ctx):
    ctx.impls = uc.build_impls(ctx, IMPLS)


def run(env, c):
    ans = uc.run_solver(env, c)
    p = c["p"]
    fs = ans.f()
    what = uc.describe(c)
    check(len(fs) == len(c["segs"]) + 1, "%s: fields missing", what)
    for k in range(len(fs)):
        segs = c["segs"][:k]
        uc.compare_field(fs[k][2], uc.reference(p, segs), uc.tolerance(p, segs) if k else 0.0,
                         what + " after %d segments" % k, p["n"])
    return Result(uc.nontrivial(p, c["segs"]), uc.labels(p, c["segs"]), len(fs))


def targets(ctx):
    out = [Target(m, uc.solver_case(m), run, 1200, 36000) for m in ctx.impls]
    out += [Target(m + "-large", uc.large_case(m), run, 24, 1200) for m in ctx.impls]
    out += [Target(m + "-long", uc.long_case(m), run, 48, 1600) for m in ctx.impls]
    missing = [m for m in IMPLS if m not in ctx.impls]
    if missing:
        from checks import c01
        out += c01.program_targets(ctx, [uc.PROGRAM.get(m, m) for m in missing])
    return out
