"""C12: the chosen decomposition has the least surface-to-volume ratio."""
import itertools
from fractions import Fraction

from hypothesis import strategies as st

from checks import decomp_common as dc
from checks.common_lib import build_servers
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("Grids of 1-6 axes and process counts that have at least one uniform decomposition; oracle: "
        "exact (rational) surface-to-volume ratio of every decomposition found by an independent "
        "enumeration. A case is non-trivial when at least two decompositions with different ratios "
        "exist.")
ASSUMPTIONS = ["ties (to a relative 1e-12) may be broken either way"]


def prepare(ctx):
    ctx.exe = build_servers(ctx, ["decomp"])["decomp"]


def run(env, case):
    labels = set()
    nontrivial = False
    for k, (nprocs, dims) in enumerate(case["grids"]):
        valid = dc.valid_decomps(nprocs, dims)
        ok, decomp, _, _ = dc.query(env, case["how"] if k == 0 else "re", nprocs, dims)
        if not valid or not ok or decomp not in valid:
            labels.add("not judged here (see C11)")
            continue
        costs = {d: dc.cost(d, dims) for d in valid}
        best = min(costs.values())
        check(costs[decomp] <= best * (1 + Fraction(1, 10**12)),
              "nprocs=%d dims=%s: chose %s (ratio ~ %.15g) but %s has %.15g", nprocs, dims, decomp,
              float(costs[decomp]), min(costs, key=costs.get), float(best))
        if len(set(costs.values())) > 1:
            nontrivial = True
            labels.add("distinct ratios")
            ranked = list(costs)
            pos = ranked.index(min(costs, key=costs.get))
            labels.add("best is %s" % ("first" if pos == 0 else "last" if pos == len(ranked) - 1
                                       else "in the middle"))
        if len(valid) > 1:
            labels.add("several decompositions")
        labels.add("axes=%d" % len(dims))
    return Result(nontrivial, labels)


def strategy():
    g = st.one_of(dc.grid(parts=[1, 2, 3, 4, 6, 8, 12, 24]),
                  dc.grid(max_procs=256, max_dims=4, parts=[2, 3, 4, 6, 8, 12]), dc.grid())
    return st.fixed_dictionaries({"how": st.sampled_from(["new", "ctor"]),
                                  "grids": st.lists(g, min_size=1, max_size=3)})


def examples():
    for dims in itertools.product((1, 2, 4, 6, 8, 12, 16, 24, 36), repeat=2):
        for n in (2, 3, 4, 6, 8, 12, 16, 24):
            yield {"how": "new", "grids": [[n, list(dims)]]}
    for dims in itertools.product((1, 2, 4, 6, 8, 12), repeat=3):
        for n in (2, 4, 6, 8, 12, 24):
            yield {"how": "new", "grids": [[n, list(dims)]]}


def targets(ctx):
    return [Target("optimality", strategy(), run, 24000, 500000, examples=list(examples()))]
