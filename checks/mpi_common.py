"""Builds, generators and model for the checks on the MPI programs and the distributed filter."""
import os
import random

import numpy as np
from hypothesis import strategies as st

from checks import decomp_common as dc
from vlib import build
from vlib.core import Crash, Inconclusive, Violation, run_cmd
from vlib.util import check, hx, num

MOCK = "mockmpi"


def build_mock(ctx, what=("filter",), san=(), real=False, suffix=""):
    """Builds the simulated MPI and the libraries that run under it (and real MPI programs).

    Sets ctx.mock (path), ctx.lib {name: .so}, ctx.real {name: program}. Where a library does not
    compile against the simulation (a call it does not have), it is missing from ctx.lib.
    """
    H = build.h(MOCK)
    inc = ["-I" + H, "-I" + build.src("cxx")]
    flags = ["-std=gnu++11", "-O2", "-g"] + list(san)
    if not hasattr(ctx, "lib"):
        ctx.lib, ctx.real, ctx.mock = {}, {}, {}
    mock = ctx.path("mock" + suffix)
    jobs = {"mock": build.seq(["g++"] + flags + ["-rdynamic", "-I" + H, "-o", mock,
                                                 H + "/mockmpi.cpp", "-ldl"])}
    libsrc = build.lib_sources()
    so = ["-fPIC", "-shared", "-fno-gnu-unique"]
    srcs = {"filter": ([H + "/filter_driver.cpp"], []),
            "laplacian": ([build.src("laplacian", "cxx", "laplacian.cxx")], "laplacian_main"),
            "upmpi": ([build.src("upwind", "cxx", "upwindMpi.cxx")], "upmpi_main")}
    for w in what:
        s, main = srcs[w]
        extra = []
        if main:
            hdr = ctx.path("main_%s.h" % w)
            with open(hdr, "w") as f:
                f.write('extern "C" int %s(int, char**);\n#define main %s\n' % (main, main))
            extra = ["-include", hdr]
        out = ctx.path("%s%s.so" % (w, suffix))
        ctx.lib[w + suffix] = out
        jobs["lib:" + w + suffix] = build.seq(["g++"] + flags + so + inc + extra + ["-o", out] + s + libsrc)
        if real:
            out = ctx.path("real_" + w)
            ctx.real[w] = out
            jobs["real:" + w] = build.seq(
                ["mpicxx", "-std=gnu++11", "-O2", "-g", "-DNDEBUG", "-DDRIVER_MAIN",
                 "-I" + build.src("cxx"), "-o", out] + s + libsrc)
    res = build.parallel(jobs)
    build.require(res, "mock")
    ctx.mock = mock
    for k, e in res.items():
        if e is None:
            continue
        kind, _, w = k.partition(":")
        if kind == "lib":
            ctx.note("%s does not build against the simulated MPI; real MPI only. %s" % (w, str(e)[-600:]))
            del ctx.lib[w]
        elif kind == "real":
            raise e


class MockRun:
    def __init__(self, lines):
        self.errors, self.out, self.err, self.exit, self.work = [], [], [], [], []
        self.leak, self.stats, self.bye = None, None, False
        for l in lines:
            k, _, v = l.partition(" ")
            if k == "error":
                self.errors.append(bytes.fromhex(v[1:]).decode(errors="replace"))
            elif k == "leak":
                self.leak = [int(x) for x in v.split()]
            elif k == "stats":
                self.stats = [int(x) for x in v.split()]
            elif k == "out":
                self.out.append(bytes.fromhex(v[1:]).decode(errors="replace"))
            elif k == "err":
                self.err.append(bytes.fromhex(v[1:]).decode(errors="replace"))
            elif k == "exit":
                self.exit.append(int(v))
            elif k == "work":
                self.work.append(float(v))
            elif k == "bye":
                self.bye = True


def mock_run(env, lib, n, sched, prog, args, what, repeat=1, timeout=None, suffix="", srvenv=None):
    """One run under the simulation. sched: [seed, order, delivery, synchronisation]."""
    d = os.path.join(env.dir, "mock-" + lib + suffix)
    os.makedirs(os.path.join(d, "cwd"), exist_ok=True)
    s = env.server("mock-" + lib + suffix, [env.ctx.mock, env.ctx.lib[lib + suffix], d],
                   cwd=os.path.join(d, "cwd"), env=srvenv)
    line = "%d %d %d %d %d %d %s %d " % (n, sched[0], sched[1], sched[2], sched[3], repeat, prog,
                                         len(args))
    try:
        r = MockRun(s.ask(line + " ".join(hx(a) for a in args), timeout=timeout))
    except Crash as e:
        raise Violation("%s: %s" % (what, e)) from None
    if r.bye:
        s.stop()
    return r


def mock_cwd(env, lib, suffix=""):
    return os.path.join(env.dir, "mock-" + lib + suffix, "cwd")


def clean_dir(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))


SCHED = st.tuples(st.integers(0, 10**9), st.integers(0, 2), st.integers(0, 2),
                  st.integers(0, 2)).map(list)

# ---------------------------------------------------------------------------------------------
# filters


def extents(n, dims):
    """The least local extent per axis the decomposition can have (ties are free), or None."""
    v = dc.valid_decomps(n, dims)
    if not v:
        return None
    best = min(float(dc.cost(p, dims)) for p in v)
    v = [p for p in v if float(dc.cost(p, dims)) <= best * (1 + 1e-12)]
    return [min(d // p[j] for p in v) for j, d in enumerate(dims)]


WEIGHT = st.one_of(st.floats(-3, 3), st.sampled_from([1.0, -1.0, 0.0, -4.0, 0.25, 1e-8, -1e5]))


@st.composite
def grid_for(draw, n, max_cells, max_dims=4, maybe_invalid=False):
    if maybe_invalid:
        return [draw(st.integers(1, 6)) for _ in range(draw(st.integers(1, 3)))]
    nd = draw(st.integers(1, max_dims))
    dims = [1] * nd
    left = n
    for p in (2, 3, 5, 7, 11, 13):
        while left % p == 0:
            left //= p
            dims[draw(st.integers(0, nd - 1))] *= p
    dims[0] *= left
    top = 6
    if max_cells >= 100 and draw(st.integers(0, 24)) == 0:       # longer axes
        max_cells, top = 12 * max_cells, 100
    for j in draw(st.permutations(range(nd))):
        room = max_cells // dc.prod(dims)
        if room > 1:
            dims[j] *= draw(st.integers(1, min(top, room)))
    return dims


@st.composite
def stencil_for(draw, dims, reach, max_terms=9):
    nd = len(dims)
    kind = draw(st.integers(0, 5))
    offs = []
    if kind == 0:                                   # Laplacian-like
        offs = [[0] * nd] + [[s if i == j else 0 for i in range(nd)] for j in range(nd) for s in (-1, 1)]
    elif kind == 1:                                 # upwind-like
        offs = [[0] * nd] + [[-1 if i == j else 0 for i in range(nd)] for j in range(nd)]
    else:
        k = draw(st.integers(1, max_terms))
        for _ in range(k):
            j = draw(st.integers(0, nd - 1))
            r = reach[j] if draw(st.integers(0, 2)) == 0 else min(reach[j], 3)
            o = draw(st.integers(-r, r))
            offs.append([o if i == j else 0 for i in range(nd)])
    seen = []
    for o in offs:
        if o not in seen:
            seen.append(o)
    if draw(st.integers(0, 30)) == 0:
        seen = []
    return [[o, draw(WEIGHT)] for o in seen]


@st.composite
def filter_case(draw, max_ranks=12, max_cells=160, nfilters=(1, 1, 1, 2, 3), nsched=1, max_dims=4,
                vtk=False, max_ops=8, min_ranks=1, windows=False):
    n = draw(st.integers(min_ranks, max_ranks)) if min_ranks > 1 else draw(st.one_of(st.integers(1, max_ranks), st.sampled_from([2, 4, 6, 8, 12]).filter(
        lambda x: x <= max_ranks)))
    fs = []
    for _ in range(draw(st.sampled_from(nfilters))):
        inv = draw(st.integers(0, 11)) == 0
        dims = draw(grid_for(n, max_cells, max_dims, inv))
        ext = extents(n, dims)
        nd = len(dims)
        lo = [draw(st.sampled_from([0.0, -1.0, 2.5, -7.25])) for _ in range(nd)]
        hi = [a + draw(st.sampled_from([1.0, 1.0, 3.0, 0.125, 10.0])) for a in lo]
        fs.append({"dims": dims, "lo": lo, "hi": hi,
                   "stencil": draw(stencil_for(dims, ext or [0] * nd))})
    ops = []
    state = {}

    def setin(k):
        kind = draw(st.sampled_from(["table", "table", "table", "tablepos", "affine"]))
        ops.append([kind, k, draw(st.integers(0, 10**6)), draw(st.sampled_from(["rand", "rand", "delta", "count"]))])
        state[k] = max(state.get(k, 0), 1)
    for k in range(len(fs)):
        setin(k)
    for _ in range(draw(st.integers(1, max_ops))):
        k = draw(st.integers(0, len(fs) - 1))
        if state.get(k) is None:
            continue
        op = draw(st.sampled_from(["apply", "apply", "apply", "copy", "copy", "set", "sumin", "sumout",
                                   "in", "out", "yield"] + (["win", "src"] if windows else []) + (["vtk"] if vtk else []) +
                                  (["del"] if len(fs) > 1 else [])))
        if op in ("copy", "sumout", "out", "vtk") and state[k] < 2:
            op = "apply"
        if op == "set":
            setin(k)
        elif op in ("win", "src"):
            offs = [o for o, _ in fs[k]["stencil"] if any(o)]
            if offs:
                ops.append([op, k, draw(st.sampled_from(offs))])
        else:
            ops.append([op, k])
            if op == "apply":
                state[k] = 2
                if draw(st.integers(0, 2)):
                    ops.append(["out", k])
            if op == "del":
                state[k] = None
    for k in range(len(fs)):
        if state.get(k):
            if state[k] < 2:
                ops.append(["apply", k])
            ops += [["out", k], ["in", k], ["sumin", k], ["sumout", k]]
            if vtk:
                ops.append(["vtk", k])
    return {"n": n, "filters": fs, "ops": ops,
            "sched": [draw(SCHED) for _ in range(nsched)]}


def values(kind, how, seed, dims, lo, hi):
    """The field an op sets: (values, magnitudes)."""
    rng = random.Random(seed)
    n = dc.prod(dims)
    if kind == "affine":
        co = [rng.uniform(-2, 2) for _ in range(len(dims) + 2)]
        ax = [np.array([l + (i + 0.5) * (h - l) / d for i in range(d)]) for d, l, h in zip(dims, lo, hi)]
        g = np.meshgrid(*ax, indexing="ij")
        v = np.full(dims, co[0])
        m = np.full(dims, abs(co[0]))
        p = np.ones(dims)
        for c, x in zip(co[1:], g):
            v = v + c * x
            m = m + abs(c * x) + abs(c) * 1.0
            p = p * x
        return v + co[-1] * p, m + abs(co[-1] * p) + 1.0, co
    if how == "rand":
        f = [rng.uniform(-5, 5) for _ in range(n)]
    elif how == "delta":
        f = [0.0] * n
        f[rng.randrange(n)] = rng.choice([1.0, -3.5])
    else:
        f = [float(i + 1) for i in range(n)]
    v = np.array(f).reshape(dims)
    return v, np.abs(v), f


def script_and_model(case, vtkdir=None):
    """The driver script, and what every output must be."""
    lines, expect = [], []
    fs = case["filters"]
    ok = []
    for k, f in enumerate(fs):
        nd = len(f["dims"])
        lines.append("filter %d %d %s %s %s %d %s" % (
            k, nd, " ".join(map(str, f["dims"])), " ".join(num(x) for x in f["lo"]),
            " ".join(num(x) for x in f["hi"]), len(f["stencil"]),
            " ".join(" ".join(map(str, o)) + " " + num(w) for o, w in f["stencil"])))
        ok.append(extents(case["n"], f["dims"]) is not None)
        expect.append(("valid", k, ok[-1]))
    I, O = {}, {}
    nv = 0
    for op in case["ops"]:
        k = op[1]
        f = fs[k]
        if op[0] in ("table", "tablepos", "affine"):
            v, m, raw = values(op[0], op[3], op[2], f["dims"], f["lo"], f["hi"])
            lines.append("%s %d %s%s" % (op[0], k, "" if op[0] == "affine" else "%d " % len(raw),
                                         " ".join(num(x) for x in raw)))
            if ok[k]:
                I[k] = (v, m)
            continue
        if op[0] == "vtk":
            path = os.path.join(vtkdir, "f%d.vtk" % nv)
            nv += 1
            lines.append("vtk %d %s" % (k, path))
            expect.append(("vtk", k, path, O[k]) if ok[k] else ("novtk", k, path))
            continue
        if op[0] in ("win", "src"):
            if ok[k]:
                lines.append("%s %d %s" % (op[0], k, " ".join(map(str, op[2]))))
                expect.append((op[0], k, I[k], op[2]))
            continue
        lines.append("%s %d" % (op[0], k))
        if not ok[k]:           # a filter without a decomposition has no cells
            if op[0] in ("out", "in", "sumin", "sumout"):
                expect.append(({"sumin": "nosum", "sumout": "nosum"}.get(op[0], op[0] + "0"), k))
            continue
        if op[0] == "apply":
            v = np.zeros(f["dims"])
            m = np.zeros(f["dims"])
            for o, w in f["stencil"]:
                sh = tuple(-x for x in o)
                ax = tuple(range(len(o)))
                v = v + w * np.roll(I[k][0], sh, ax)
                m = m + abs(w) * np.roll(I[k][1], sh, ax)
            O[k] = (v, m)
        elif op[0] == "copy":
            I[k] = O[k]
        elif op[0] == "out":
            expect.append(("out", k, O[k]))
        elif op[0] == "in":
            expect.append(("in", k, I[k]))
        elif op[0] == "sumin":
            expect.append(("sum", k, I[k]))
        elif op[0] == "sumout":
            expect.append(("sum", k, O[k]))
    lines.append("end")
    return "\n".join(lines) + "\n", expect


def parse_rank(text):
    """What one rank said: the list of its records."""
    rec = []
    cur = None
    for l in text.split("\n"):
        w = l.split()
        if not w:
            continue
        if w[0] == "@end":
            cur = None
        elif w[0] == "@none":
            rec[-1][2] = None
        elif w[0] in ("@out", "@in", "@win", "@src"):
            cur = [w[0][1:], int(w[1]), []]
            rec.append(cur)
        elif w[0] in ("@valid", "@sum"):
            rec.append([w[0][1:], int(w[1]), w[2]])
        elif cur is not None and "inds" in w:
            i = w.index("inds") + 2
            j = w.index("=", i)
            cur[2].append((tuple(int(x) for x in w[i:j - 1]), w[j + 1]))
    return rec


def verify_script(case, texts, expect, what):
    """texts: what each rank wrote to its standard error."""
    n = case["n"]
    recs = [parse_rank(t) for t in texts]
    pos = [0] * n
    evals = 0

    def take(r, kind, k):
        check(pos[r] < len(recs[r]), "%s: rank %d stopped before '%s %d'; it said ...%s", what, r, kind,
              k, texts[r][-300:])
        x = recs[r][pos[r]]
        pos[r] += 1
        check(x[0] == kind and x[1] == k, "%s: rank %d: expected the record '%s %d', got '%s %d'", what,
              r, kind, k, x[0], x[1])
        return x[2]
    for e in expect:
        kind, k = e[0], e[1]
        f = case["filters"][k]
        name = "%s: filter %d (grid %s)" % (what, k, f["dims"])
        if kind == "valid":
            for r in range(n):
                g = take(r, "valid", k)
                check(g == str(int(e[2])), "%s: rank %d says isDecompValid() = %s, expected %d", name, r,
                      g, int(e[2]))
        elif kind in ("out", "in"):
            v, m = e[2]
            seen = {}
            for r in range(n):
                for inds, x in take(r, kind, k):
                    check(len(inds) == len(f["dims"]) and all(0 <= i < d for i, d in zip(inds, f["dims"])),
                          "%s: rank %d has the cell %s", name, r, inds)
                    check(inds not in seen, "%s: cell %s is on the ranks %s and %d", name, inds,
                          seen.get(inds), r)
                    seen[inds] = r
                    try:
                        g = float(x)
                    except ValueError:
                        raise Violation("%s: cell %s has the value %r" % (name, inds, x)) from None
                    w = float(v[inds])
                    check(abs(g - w) <= 1e-11 * float(m[inds]) + 1e-250,
                          "%s: %sput at cell %s (rank %d) is %r, the serial periodic stencil gives %r\n"
                          "stencil %s", name, kind, inds, r, g, w, f["stencil"])
                    evals += 1
            check(len(seen) == dc.prod(f["dims"]), "%s: %d of %d cells are covered", name, len(seen),
                  dc.prod(f["dims"]))
        elif kind in ("win", "src"):
            (v, m), off = e[2], e[3]
            ax = [j for j, o in enumerate(off) if o][0]
            # the widest reach in this direction
            g = max(o[ax] * (1 if off[ax] > 0 else -1) for o, _ in f["stencil"])
            which = "the window for offset %s, %s" % (off, "fetched from the neighbour" if kind == "win" else "as printed")
            seen = set()
            for r in range(n):
                cells = take(r, kind, k)
                if cells is None:
                    continue
                check(len({c[0][ax] for c in cells}) >= g,       # more do no harm
                      "%s: %s: rank %d has %d layers, the stencil reaches %d:\n%s", name,
                      which, r, len({c[0][ax] for c in cells}), g, cells[:20])
                for inds, x in cells:
                    check(inds not in seen and len(inds) == len(f["dims"]) and
                          all(0 <= i < d for i, d in zip(inds, f["dims"])), "%s: %s: cell %s", name, which, inds)
                    seen.add(inds)
                    w = float(v[inds])
                    check(abs(float(x) - w) <= 1e-11 * float(m[inds]) + 1e-250, "%s: %s: cell %s on rank %d is %s, the input "
                          "there is %r", name, which, inds, r, x, w)
                    evals += 1
        elif kind in ("out0", "in0"):
            for r in range(n):
                check(not take(r, kind[:-1], k), "%s: there is no decomposition, but rank %d has cells", name, r)
        elif kind == "nosum":
            take(0, "sum", k)
        elif kind == "novtk":
            check(not os.path.exists(e[2]), "%s: there is no decomposition, but a VTK file was written", name)
        elif kind == "sum":
            g = take(0, "sum", k)
            w = float(np.sum(e[2][0]))
            check(abs(float(g) - w) <= 1e-11 * float(np.sum(e[2][1])) + 1e-250,
                  "%s: check sum %s, expected %r", name, g, w)
            evals += 1
    for r in range(n):
        check(pos[r] == len(recs[r]), "%s: rank %d has extra records", what, r)
    return evals


def labels_of(case):
    lab = []
    n = case["n"]
    oks = [extents(n, f["dims"]) for f in case["filters"]]
    if any(o is None for o in oks):
        lab.append("no decomposition")
    if n > 1:
        lab.append("several ranks")
    if len(case["filters"]) > 1:
        lab.append("several filters")
    for f, o in zip(case["filters"], oks):
        mx = [max([abs(x[0][j]) for x in f["stencil"]] + [0]) for j in range(len(f["dims"]))]
        if o and any(m == e and e > 1 for m, e in zip(mx, o)):
            lab.append("reach of a whole sub-domain")
        if max(mx + [0]) > 1:
            lab.append("reach > 1")
        lab.append("%d-d" % len(f["dims"]))
    names = [o[0] for o in case["ops"]]
    if "copy" in names and names.count("apply") > 1:
        lab.append("re-applied")
    return sorted(set(lab))


def nontrivial(case):
    """Data crosses ranks or the periodic boundary, and something is computed from it."""
    return any(extents(case["n"], f["dims"]) and any(any(o) and w != 0 for o, w in f["stencil"])
               for f in case["filters"]) and any(o[0] == "apply" for o in case["ops"])


def run_mock_case(env, case, leaks, vtk=None):
    d = env.fresh_dir()
    script, expect = script_and_model(case, d)
    path = os.path.join(d, "script")
    with open(path, "w") as f:
        f.write(script)
    evals = 0
    for s in case["sched"]:
        what = "%d ranks, schedule %s" % (case["n"], s)
        r = mock_run(env, "filter", case["n"], s, "filter_main", ["prog", path], what,
                     repeat=2 if leaks else 1)
        check(not r.errors, "%s: %s\nfilters %s\nops %s", what, r.errors, case["filters"], case["ops"])
        evals += verify_script(case, r.err, expect, what)
        if leaks:
            check(r.leak[0] == 0, "%s: %d windows were never freed", what, r.leak[0])
            check(r.leak[1] == 0, "%s: %d blocks of MPI memory were never freed", what, r.leak[1])
            check(r.leak[2] <= 0, "%s: %d heap blocks (%d bytes) stay allocated after every filter is "
                  "destroyed", what, r.leak[2], r.leak[3])
        if vtk:
            evals += vtk(case, expect, d)
    return evals


def run_real_batch(env, batch, vtk=None):
    """Scripts of one rank count under the real MPI."""
    d = env.fresh_dir()
    n = batch["n"]
    text = "%d\n" % len(batch["cases"])
    exp = []
    for i, c in enumerate(batch["cases"]):
        dd = os.path.join(d, "v%d" % i)
        os.makedirs(dd)
        s, e = script_and_model(c, dd)
        text += s
        exp.append(e)
    path = os.path.join(d, "scripts")
    with open(path, "w") as f:
        f.write(text)
    from vlib.build import env as benv, mpiexec
    rc, o, e = run_cmd(mpiexec(n, [env.ctx.real["filter"], path, os.path.join(d, "said")]), cwd=d,
                       env=benv(TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d), timeout=120)
    what = "mpiexec -n %d" % n
    if rc is None and os.getloadavg()[0] > 40:
        raise Inconclusive("mpiexec timed out on a loaded machine")
    check(rc is not None, "%s: no end after 120 s", what)
    check(rc == 0, "%s: exit status %s\n%s\n%s", what, rc, o[-1500:], e[-1500:])
    evals = 0
    parts = []
    for r in range(n):
        with open(os.path.join(d, "said.%d" % r)) as f:
            parts.append(f.read().split("@script ")[1:])
    for i, c in enumerate(batch["cases"]):
        evals += verify_script(c, [p[i] for p in parts], exp[i], what + " (script %d)" % i)
        if vtk:
            vtk(c, exp[i], os.path.join(d, "v%d" % i))
    return evals


@st.composite
def real_batch(draw, k=6, **kw):
    c0 = draw(filter_case(nsched=0, max_ranks=8, **kw))
    n = c0["n"]
    cs = [c0]
    for _ in range(draw(st.integers(1, k))):
        cs.append(draw(filter_case_n(n, **kw)))
    return {"n": n, "cases": cs}


@st.composite
def filter_case_n(draw, n, max_cells=120, max_dims=4, **kw):
    dims = draw(grid_for(n, max_cells, max_dims))
    ext = extents(n, dims)
    nd = len(dims)
    f = {"dims": dims, "lo": [0.0] * nd, "hi": [1.0] * nd,
         "stencil": draw(stencil_for(dims, ext or [0] * nd))}
    ops = [["table", 0, draw(st.integers(0, 10**6)), "rand"], ["apply", 0], ["out", 0]]
    if draw(st.booleans()):
        ops += [["copy", 0], ["apply", 0], ["out", 0], ["sumout", 0], ["in", 0]]
    return {"n": n, "filters": [f], "ops": ops, "sched": []}


@st.composite
def large_filter_case(draw):
    """More cells per rank (and in a window) than a 16-bit index can count."""
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
    dims = draw(st.sampled_from([[66000 * n], [n, 66000], [257 * n, 256], [256, 257 * n], [n * 7, 97, 101], [2, 33000 * n],
                                 [41 * n, 40, 41], [n * 2, 2, 16500], [3 * n, 25000], [n, 5, 13200]]))
    nd = len(dims)
    ext = extents(n, dims)
    reach = [min(e, 5) for e in ext]
    f = {"dims": dims, "lo": [0.0] * nd, "hi": [draw(st.sampled_from([1.0, 3.0]))] * nd,
         "stencil": draw(stencil_for(dims, reach))}
    ops = [[draw(st.sampled_from(["table", "table", "tablepos", "affine"])), 0, draw(st.integers(0, 10**6)),
            draw(st.sampled_from(["rand", "rand", "count"]))], ["apply", 0], ["out", 0], ["sumout", 0]]
    if draw(st.booleans()):
        ops += [["copy", 0], ["apply", 0], ["out", 0], ["sumin", 0]]
    return {"n": n, "filters": [f], "ops": ops, "sched": [draw(SCHED)]}
