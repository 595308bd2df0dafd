"""C11: a decomposition tiles the grid, and is reported impossible exactly when it is."""
import itertools

from hypothesis import strategies as st

from checks import decomp_common as dc
from checks.common_lib import build_servers
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("Grids of 1-6 axes with a process count: made from parts x local extents (a decomposition "
        "exists), arbitrary, one off a reachable count, and counts reachable only modulo 2^32; "
        "up to 100000 processes; objects built by constructor, by build, or rebuilt. Oracle: a recursive enumeration of the "
        "divisor choices decides validity; the boxes of all ranks are checked to tile the grid. "
        "A case is non-trivial when it is valid with at least two processes and two axes, or "
        "invalid with a process count below the number of cells.")
ASSUMPTIONS = ["axis lengths are at least 1; fewer than 2^31 processes"]


def prepare(ctx):
    ctx.exe = build_servers(ctx, ["decomp"])["decomp"]


def tile(boxes, dims, decomp):
    """The boxes cover every cell exactly once and have equal extents."""
    ext = tuple(n // p for n, p in zip(dims, decomp))
    seen = set()
    for rk, (lo, hi) in enumerate(boxes):
        check(len(lo) == len(dims) and len(hi) == len(dims), "rank %d: box %s %s", rk, lo, hi)
        check(tuple(b - a for a, b in zip(lo, hi)) == ext,
              "rank %d: box %s to %s does not have the extents %s", rk, lo, hi, ext)
        for a, b, n, e in zip(lo, hi, dims, ext):
            check(0 <= a < b <= n and a % e == 0,
                  "rank %d: box %s to %s is not aligned in the grid %s", rk, lo, hi, dims)
        check(lo not in seen, "the box at %s is given to two ranks", lo)
        seen.add(lo)
    # equal aligned boxes, all different, as many as the parts: every cell is covered once


def run(env, case):
    labels = set()
    nontrivial = False
    for k, (nprocs, dims) in enumerate(case["grids"]):
        how = case["how"] if k == 0 else "re"
        valid = dc.valid_decomps(nprocs, dims)
        nbox = min(nprocs, case.get("boxes", 2000)) if valid else 0
        ok, decomp, boxes, _ = dc.query(env, how, nprocs, dims, nbox)
        check(ok == bool(valid), "nprocs=%d dims=%s: reported %s, %d decompositions exist (e.g. %s)",
              nprocs, dims, "valid" if ok else "invalid", len(valid), valid[:1])
        if not ok:
            check(decomp == (), "invalid, but getDecomp gives %s", decomp)
            labels.add("invalid")
            nontrivial |= nprocs < dc.prod(dims)
            continue
        check(len(decomp) == len(dims) and all(d >= 1 and n % d == 0
                                               for d, n in zip(decomp, dims)),
              "decomposition %s does not divide %s", decomp, dims)
        check(dc.prod(decomp) == nprocs, "decomposition %s does not have %d parts", decomp, nprocs)
        check(len(boxes) == nbox, "boxes missing")
        tile(boxes, dims, decomp)
        if nbox == nprocs:
            labels.add("tiling complete")
        labels.add("valid")
        labels.add("axes=%d" % len(dims))
        if nprocs > 1 and len(dims) > 1:
            nontrivial = True
        if sum(d > 1 for d in decomp) > 1:
            labels.add("several axes cut")
    return Result(nontrivial, labels)


def strategy():
    g = st.one_of(dc.grid(), dc.grid(max_procs=200), dc.any_grid())
    return st.fixed_dictionaries({"how": st.sampled_from(["new", "ctor"]),
                                  "grids": st.lists(g, min_size=1, max_size=3)})


def many():
    g = dc.grid(max_procs=100000, max_work=4000, max_dims=4,
                parts=[1, 2, 16, 30, 64, 100, 128, 181, 182, 256, 300, 400, 32768, 40000, 65536, 70000])
    return st.fixed_dictionaries({"how": st.sampled_from(["new", "ctor"]), "boxes": st.just(100000),
                                  "grids": st.lists(g, min_size=1, max_size=1)})


def examples():
    for dims in itertools.product(range(1, 9), repeat=2):
        for n in range(1, 17):
            yield {"how": "new", "grids": [[n, list(dims)]]}
    for dims in itertools.product((1, 2, 3, 4, 6), repeat=3):
        for n in (1, 2, 3, 4, 6, 8, 9, 12, 16, 24):
            yield {"how": "ctor", "grids": [[n, list(dims)]]}
    for g in dc.wrap_examples():
        yield {"how": "new", "grids": [g]}


def targets(ctx):
    return [Target("decomposition", strategy(), run, 16000, 400000, examples=list(examples())),
            Target("many", many(), run, 48, 2000)]
