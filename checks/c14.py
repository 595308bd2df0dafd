"""C14: MultiArrayIter is a bijection between flat and index sets."""
import itertools

from hypothesis import strategies as st

from checks.common_lib import build_servers
from vlib.core import Result, Target, Violation
from vlib.util import ask, check

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("Histories over one iterator object: build (1-12 axes, any low corner, extents >= 1 drawn so "
        "that either the whole box can be enumerated or the number of terms exceeds 2^32), then "
        "begin/next/move/get/flat-index/copy/rebuild operations; oracle: an index-arithmetic model. "
        "A case is non-trivial when the box has two axes of extent >= 2 and at least one operation "
        "was judged.")
ASSUMPTIONS = ["boxes are non-empty with at least one axis; stepping past the end is not judged",
               "an iterator is moved and stepped only within its box"]


def prepare(ctx):
    ctx.exe = build_servers(ctx, ["iter"])["iter"]


# a box is [lo, ext, rowMajor]
@st.composite
def small_box(draw):
    nd = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 2, 3, 4, 7, 8, 9, 12]))
    ext, prod = [], 1
    for _ in range(nd):
        m = max(1, min(12, 3000 // prod))
        e = draw(st.integers(1, m))
        ext.append(e)
        prod *= e
    ext = draw(st.permutations(ext))
    lo = draw(st.lists(st.one_of(st.integers(0, 9), st.integers(0, 2**40)), min_size=nd,
                       max_size=nd))
    return [lo, list(ext), draw(st.booleans())]


@st.composite
def big_box(draw):
    nd = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 2, 3, 4, 7, 8, 9, 12]))
    bits = draw(st.integers(33, 61))
    cuts = sorted(draw(st.lists(st.integers(0, bits), min_size=nd - 1, max_size=nd - 1)))
    bs = [b - a for a, b in zip([0] + cuts, cuts + [bits])]
    ext = [max(1, min(2**b + draw(st.integers(-3, 3)), 2**b + 3)) for b in bs]
    while prod(ext) >= 2**62:
        k = ext.index(max(ext))
        ext[k] //= 2
    lo = draw(st.lists(st.one_of(st.integers(0, 9), st.integers(0, 2**45)), min_size=nd,
                       max_size=nd))
    return [lo, ext, draw(st.booleans())]


def frac():
    return st.integers(0, 2**64 - 1)


OPS = st.lists(st.one_of(
    st.tuples(st.just("begin")), st.tuples(st.just("next")), st.tuples(st.just("next")),
    st.tuples(st.just("move"), frac()), st.tuples(st.just("flat"), st.lists(frac(), min_size=12,
                                                                            max_size=12)),
    st.tuples(st.just("copy")), st.tuples(st.just("bounds"))).map(list), min_size=1, max_size=25)


def prod(v):
    p = 1
    for x in v:
        p *= x
    return p


def unflatten(box, k):
    lo, ext, rm = box
    n = len(ext)
    out = [0] * n
    for i in (range(n - 1, -1, -1) if rm else range(n)):
        out[i] = lo[i] + k % ext[i]
        k //= ext[i]
    return out


def flatten(box, inds):
    lo, ext, rm = box
    n = len(ext)
    k = 0
    for i in (range(n) if rm else range(n - 1, -1, -1)):
        k = k * ext[i] + inds[i] - lo[i]
    return k


def run(env, case):
    srv = env.server("iter", [env.ctx.exe])
    line = []
    expect = []
    labels = set()
    nontrivial = False
    first = True
    for box, full, ops in case["history"]:
        lo, ext, rm = box
        n = prod(ext)
        line.append("ctor" if first and case["ctor"] else "build")
        first = False
        line.append(str(len(ext)))
        line += [str(x) for x in lo] + [str(a + b) for a, b in zip(lo, ext)] + [str(int(rm))]
        line.append("n")
        expect.append(("number of terms", str(n)))
        line.append("get")
        expect.append(("index set after build", " ".join(map(str, lo))))
        pos = 0
        labels.add("axes=%d" % len(ext))
        labels.add("row" if rm else "column")
        if n > 2**32:
            labels.add("more than 2^32 terms")
        if full:
            line.append("all")
            rng = [range(a, a + b) for a, b in zip(lo, ext)]
            if rm:
                sets = itertools.product(*rng)
            else:
                sets = (tuple(reversed(x)) for x in itertools.product(*reversed(rng)))
            for k, s in enumerate(sets):
                expect.append(("index set %d of the iteration" % k, " ".join(map(str, s))))
            labels.add("full enumeration")
        if sum(e > 1 for e in ext) >= 2:
            nontrivial = True
        if 1 in ext:
            labels.add("unit extent")
        for op in ops:
            if op[0] == "begin":
                line.append("begin")
                pos = 0
            elif op[0] == "next":
                if pos + 1 >= n:
                    continue
                line.append("next")
                pos += 1
            elif op[0] == "move":
                pos = op[1] % n
                line += ["move", str(pos)]
            elif op[0] == "copy":
                line.append("copy")
            elif op[0] == "bounds":
                line += ["lo", "hi"]
                expect.append(("getLBegIndices", " ".join(map(str, lo))))
                expect.append(("getEndIndices", " ".join(str(a + b) for a, b in zip(lo, ext))))
            elif op[0] == "flat":
                inds = [a + r % e for a, e, r in zip(lo, ext, op[1])]
                k = flatten(box, inds)
                line += ["bigz"] + [str(x) for x in inds]
                expect.append(("flat index of %s" % inds, str(k)))
                if max(inds) < 2**31 and n < 2**31:
                    line += ["bigi"] + [str(x) for x in inds]
                    expect.append(("flat index (int) of %s" % inds, str(k)))
                line += ["move", str(k), "get"]
                expect.append(("index set moved to by the flat index of %s" % inds,
                               " ".join(map(str, inds))))
                pos = k
            line.append("get")
            expect.append(("index set after %s" % op[0],
                           " ".join(map(str, unflatten(box, pos)))))
    got = ask(srv, " ".join(line))
    for k, (what, e) in enumerate(expect):
        g = got[k] if k < len(got) else "(nothing)"
        check(g == e, "%s: expected %s, got %s\nhistory: %s", what, e, g, " ".join(line)[:1500])
    if len(case["history"]) > 1:
        labels.add("rebuilt")
    return Result(nontrivial, labels, len(expect))


def segment():
    return st.one_of(st.tuples(small_box(), st.booleans(), OPS),
                     st.tuples(big_box(), st.just(False), OPS)).map(list)


def strategy():
    return st.fixed_dictionaries({"ctor": st.booleans(),
                                  "history": st.lists(segment(), min_size=1, max_size=3)})


def all_small():
    """Every box of up to three axes with extents 1..4, both orders: exhaustive."""
    for nd in (1, 2, 3):
        for ext in itertools.product(range(1, 5), repeat=nd):
            for rm in (True, False):
                yield {"ctor": True, "history": [[[[5, 0, 2][:nd], list(ext), rm], True,
                                                  [["move", 1], ["next"], ["begin"]]]]}


def targets(ctx):
    return [Target("iterator-history", strategy(), run, 12000, 400000, examples=list(all_small()))]
