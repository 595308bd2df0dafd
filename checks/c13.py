"""C13: neighbour ranks are periodic, symmetric and geometrically adjacent."""
import itertools

from hypothesis import strategies as st

from checks import decomp_common as dc
from checks.common_lib import build_servers
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("Grids of 1-5 axes with a valid decomposition; all ranks (up to 400) and all directions of "
        "{-1,0,1}^axes (a generated subset when there are more than 6000 pairs); some grids of up to 200000 "
        "processes, a sample of ranks. Oracle: the box of "
        "the neighbour, looked up among the boxes the code reports, must be the periodically "
        "adjacent one. A case is non-trivial when at least two processes exist and a direction "
        "along a cut axis is asked for.")
ASSUMPTIONS = ["direction components are -1, 0 or +1 (what the callers use)"]


def prepare(ctx):
    ctx.exe = build_servers(ctx, ["decomp"])["decomp"]


def run(env, case):
    nprocs, dims = case["grid"]
    nd = len(dims)
    alldirs = list(itertools.product((-1, 0, 1), repeat=nd))
    ranks = list(range(nprocs))
    if nprocs * len(alldirs) > case["limit"]:
        r = case["pick"]
        ranks = sorted({(r[k % len(r)] + 7919 * k) % nprocs for k in range(20)} | {0, nprocs - 1})
        if len(ranks) * len(alldirs) > case["limit"]:
            step = max(1, len(ranks) * len(alldirs) // case["limit"])
            alldirs = alldirs[::step] + [alldirs[-1]]
    pairs = [(rk, d) for rk in ranks for d in alldirs]
    ok, decomp, boxes, nb = dc.query(env, "new", nprocs, dims, nprocs, pairs)
    if not ok:
        return Result(False, ["not judged here (see C11)"])
    lo = [b[0] for b in boxes]
    where = {b: r for r, b in enumerate(lo)}
    if len(where) != nprocs:
        return Result(False, ["not judged here (see C11)"])
    check(len(nb) == len(pairs), "answers missing")
    ext = [n // p for n, p in zip(dims, decomp)]
    for (rk, d), got in zip(pairs, nb):
        check(0 <= got < nprocs, "nprocs=%d dims=%s decomp=%s: neighbour of %d in direction %s is "
              "the non-existing rank %d", nprocs, dims, decomp, rk, d, got)
        want = tuple((a + c * e) % n for a, c, e, n in zip(lo[rk], d, ext, dims))
        check(lo[got] == want, "nprocs=%d dims=%s decomp=%s: neighbour of rank %d (box at %s) in "
              "direction %s is rank %d (box at %s), expected the box at %s (rank %s)", nprocs, dims,
              decomp, rk, lo[rk], d, got, lo[got], want, where.get(want))
    labels = {"axes=%d" % nd}
    for p in decomp:
        labels.add("cut into %s" % (p if p < 4 else ">=4"))
    if len(set(decomp)) > 1:
        labels.add("unequal cuts")
    return Result(nprocs > 1, labels, len(pairs))


@st.composite
def many_case(draw):
    """Very many processes, a sample of pairs."""
    nd = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    dims, n = [], 1
    for _ in range(nd):
        p = draw(st.sampled_from([1, 2, 4, 8, 16, 30, 64, 100, 128, 181, 182, 256, 300, 400, 512, 32768, 40000, 65536, 70000]))
        if n * p > 200000:
            p = draw(st.sampled_from([1, 2]))
        n *= p
        dims.append(p * draw(st.sampled_from([1, 1, 2, 3])))
    dims = list(draw(st.permutations(dims)))
    rank = st.one_of(st.integers(0, n - 1), st.integers(0, min(n, 40) - 1), st.integers(max(0, n - 40), n - 1))
    pairs = draw(st.lists(st.tuples(rank, st.tuples(*[st.integers(-1, 1)] * nd)), min_size=5, max_size=60))
    return {"grid": [n, dims], "pairs": [[r, list(d)] for r, d in pairs]}


def run_many(env, case):
    nprocs, dims = case["grid"]
    ok, decomp, boxes, nb = dc.query(env, "new", nprocs, dims, -1, case["pairs"])
    if not ok:
        return Result(False, ["not judged here (see C11)"])
    ext = [n // p for n, p in zip(dims, decomp)]
    for k, ((rk, d), got) in enumerate(zip(case["pairs"], nb)):
        what = "nprocs=%d dims=%s decomp=%s: neighbour of rank %d in direction %s" % (nprocs, dims, decomp, rk, d)
        check(0 <= got < nprocs, "%s is the non-existing rank %d", what, got)
        (lo, hi), (nlo, nhi) = boxes[2 * k], boxes[2 * k + 1]
        want = tuple((a + c * e) % n for a, c, e, n in zip(lo, d, ext, dims))
        check(nlo == want, "%s (box at %s) is rank %d (box at %s), expected the box at %s", what, lo, got, nlo, want)
        check(nhi == tuple(a + e for a, e in zip(want, ext)), "%s is rank %d with the box %s to %s", what, got, nlo, nhi)
    return Result(nprocs > 1, ["many processes", "more than 2^15" if nprocs > 32768 else "at most 2^15",
                               "more than 2^16" if nprocs > 65536 else "at most 2^16"], len(nb))


def strategy():
    return st.fixed_dictionaries({
        "grid": st.one_of(dc.grid(max_procs=400, max_dims=5, parts=[1, 2, 3, 4, 5, 7]),
                          dc.grid(max_procs=64, max_dims=4, parts=[2, 3, 4]),
                          dc.grid(max_procs=400, max_dims=3)),
        "limit": st.just(6000),
        "pick": st.lists(st.integers(0, 10**6), min_size=1, max_size=4)})


def examples():
    for parts in itertools.product((1, 2, 3, 4), repeat=2):
        yield {"grid": [parts[0] * parts[1], [parts[0] * 7, parts[1] * 7]], "limit": 6000, "pick": [1]}
    for parts in itertools.product((1, 2, 3), repeat=3):
        yield {"grid": [dc.prod(parts), [p * 5 for p in parts]], "limit": 6000, "pick": [1]}


def targets(ctx):
    return [Target("neighbours", strategy(), run, 8000, 200000, examples=list(examples())),
            Target("many", many_case(), run_many, 1200, 30000)]
