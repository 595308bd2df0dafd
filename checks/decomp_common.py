"""Generators and model shared by the CubeDecomp checks (C11, C12, C13)."""
import functools
import itertools
from fractions import Fraction

from hypothesis import strategies as st

from vlib.core import Violation
from vlib.util import ask


@functools.lru_cache(maxsize=100000)
def divisors(n):
    out = set()
    k = 1
    while k * k <= n:
        if n % k == 0:
            out.add(k)
            out.add(n // k)
        k += 1
    return sorted(out)


def prod(v):
    p = 1
    for x in v:
        p *= x
    return p


def valid_decomps(nprocs, dims):
    """Every uniform decomposition: recursive, independent of the code's enumeration."""
    out = []

    def rec(j, left, acc):
        if j == len(dims):
            if left == 1:
                out.append(tuple(acc))
            return
        for d in divisors(dims[j]):
            if left % d == 0:
                rec(j + 1, left // d, acc + [d])
    rec(0, nprocs, [])
    return out


def cost(decomp, dims):
    """Surface to volume ratio of a sub-domain, up to a constant factor: sum of 1/extent."""
    return sum(Fraction(p, n) for p, n in zip(decomp, dims))


def work(dims):
    return prod(len(divisors(d)) + 1 for d in dims)


NICE = [1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30, 32, 36, 48, 60, 64]


@st.composite
def grid(draw, max_procs=4096, max_work=20000, max_dims=6, parts=NICE):
    """A grid that has at least one decomposition, made from parts x local extents."""
    nd = draw(st.integers(1, max_dims))
    ps, dims = [], []
    procs = 1
    w = 1
    for _ in range(nd):
        p = draw(st.sampled_from(parts))
        if procs * p > max_procs:
            p = 1
        loc = draw(st.one_of(st.integers(1, 12), st.integers(1, 400)))
        if w * (len(divisors(p * loc)) + 1) > max_work:
            loc = 1
        if w * (len(divisors(p * loc)) + 1) > max_work:
            p, loc = 1, 1
        w *= len(divisors(p * loc)) + 1
        procs *= p
        ps.append(p)
        dims.append(p * loc)
    order = draw(st.permutations(range(nd)))
    return [procs, [dims[i] for i in order]]


@st.composite
def any_grid(draw, max_work=20000):
    """A grid and a process count with no promise that a decomposition exists."""
    nd = draw(st.integers(1, 5))
    dims = []
    w = 1
    for _ in range(nd):
        n = draw(st.one_of(st.integers(1, 12), st.integers(1, 200), st.sampled_from(
            [64, 97, 128, 127, 210, 1000, 1024, 4096, 65536, 99991, 30030])))
        if w * (len(divisors(n)) + 1) > max_work:
            n = draw(st.sampled_from([1, 2, 3, 5, 7]))
        w *= len(divisors(n)) + 1
        dims.append(n)
    kind = draw(st.integers(0, 3))
    if kind == 0:
        nprocs = draw(st.integers(1, 64))
    elif kind == 1:
        nprocs = draw(st.integers(1, 5000))
    elif kind == 2:     # a divisor of the number of cells, which need not be reachable
        m = min(prod(dims), 10**9)
        nprocs = draw(st.sampled_from(divisors(m) if m < 10**7 else [1, 2, 4, 6]))
    else:               # one off a reachable count
        nprocs = 1
        for n in dims:
            nprocs *= draw(st.sampled_from(divisors(n)))
            if nprocs > 10**6:
                nprocs = draw(st.integers(1, 100))
                break
        nprocs += draw(st.sampled_from([-1, 0, 0, 0, 1]))
    return [max(1, min(nprocs, 10**7)), dims]


def wrap_examples():
    """Process counts that no decomposition reaches, but one does modulo 2^32 (dims small)."""
    out = []
    for p in range(1, 400):
        m = 2**32 + p
        k = m
        fs = []
        d = 2
        while d * d <= k and d < 70000:
            while k % d == 0:
                fs.append(d)
                k //= d
            d += 1
        if k > 1:
            fs.append(k)
        if fs[-1] > 200000:
            continue
        dims = [1, 1, 1]
        for f in sorted(fs, reverse=True):
            dims[dims.index(min(dims))] *= f
        if max(dims) < 400000 and work(dims) < 20000:
            out.append([p, dims])
    return out[:12]


def query(env, how, nprocs, dims, boxes=0, dirs=()):
    """Ask the implementation. Returns (valid, decomp, [(lo, hi)], [neighbour])."""
    srv = env.server("decomp", [env.ctx.exe])
    line = [how, str(nprocs), str(len(dims))] + [str(d) for d in dims] + [str(boxes), str(len(dirs))]
    for rk, d in dirs:
        line += [str(rk)] + [str(x) for x in d]
    got = ask(srv, " ".join(line), "CubeDecomp nprocs=%d dims=%s" % (nprocs, dims))
    try:
        ok = got[0] == "ok 1"
        decomp = tuple(int(x) for x in got[1].split()[1:])
        lo = [tuple(map(int, g.split()[1:])) for g in got if g.startswith("lo")]
        hi = [tuple(map(int, g.split()[1:])) for g in got if g.startswith("hi")]
        nb = [int(g.split()[1]) for g in got if g.startswith("nb ")]
    except (ValueError, IndexError):
        raise Violation("unreadable answer %s" % got[:5])
    return ok, decomp, list(zip(lo, hi)), nb
