"""C20: no program touches memory outside its arrays or uses undefined values."""
import os
import re
import types

from hypothesis import strategies as st

from checks import c10, c11, c13, c14, c15, c17, c19
from checks import cli_common as cl
from checks import mpi_common as mc
from checks import upwind_common as uc
from checks.common_lib import build_servers
from vlib import build
from vlib.core import Inconclusive, Result, Target, Violation
from vlib.util import ask, check, hx

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("The generated inputs and histories of the other checks (solvers of all languages with prints, check sums, "
        "std, VTK output, several objects at a time, deletion; decompositions, iterators, parser, VTK writer, matrix "
        "products; distributed filters and the MPI programs under the simulated MPI), and arbitrary command lines of "
        "every program (valid, refused, missing values, garbage, very long words; sizes at least one), run on builds "
        "with AddressSanitizer and UndefinedBehaviorSanitizer, libstdc++ assertions and container annotations, "
        "gfortran's run time checks and signalling-NaN initialisation, and (fewer) under valgrind memcheck, which sees "
        "uninitialised values. A report of any of these is a violation; wrong results are not judged here. A case is "
        "non-trivial by the rule of the check it comes from; a command line when it has a word.")
ASSUMPTIONS = ["sizes of at least one cell; at most 12 cells per axis and 40 steps on command lines",
               "MPI is the simulation of harness/mockmpi (accesses of one-sided calls outside a window are reported "
               "there)",
               "gcc's sanitizers and memcheck see what they instrument: reads inside libraries are seen by memcheck only"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
FSAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
        "-fcheck=bounds,do,mem,pointer,recursion", "-finit-real=snan", "-finit-integer=-2000000011",
        "-ffpe-trap=invalid,zero", "-Wno-all"]
PLAIN = ["-O1", "-g"]
VALGRIND = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no",
            "--max-stackframe=20000000", "--main-stacksize=8388608", "--num-callers=8"]
MARK = re.compile(r"AddressSanitizer|runtime error: |Assertion '|Fortran runtime error: (Index|Array|Substring|Attempt|"
                  r"Pointer|Allocatable|Dimension|Loop|Recursive|Dummy|Actual|Unequal|Different|Value|Zero)|"
                  r"==\d+== +(Conditional|Use of|Invalid|Syscall|Jump|Process terminating|Source and|Argument|Mismatched)|"
                  r"stack smashing|buffer overflow detected|malloc\(\)|free\(\): |munmap_chunk|corrupted|"
                  r"status -(4|5|6|7|8|11)\b|SIGSEGV|SIGFPE|SIGBUS|are outside the window|"
                  r"(origin|rank \d+ sends) .*bytes|not \(or no more\) allocated")


class Sub:
    """The environment of another check, on the builds of one tool."""

    def __init__(self, env, tool):
        self.env, self.tool = env, tool
        self.ctx = env.ctx.sub[tool]
        self.dir = os.path.join(env.dir, tool)
        os.makedirs(self.dir, exist_ok=True)

    def server(self, key, argv, **kw):
        if self.tool == "vg":
            argv = VALGRIND + argv
            kw["timeout"] = 300
        e = dict(kw.get("env") or build.env())
        e.update(TOOL_ENV)
        kw["env"] = e
        return self.env.server(self.tool + ":" + key, argv, **kw)

    def fresh_dir(self):
        import shutil
        d = os.path.join(self.dir, "case")
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        return d


TOOL_ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0:abort_on_error=0:handle_abort=0:"
            "detect_stack_use_after_return=0:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0"}


def guard(run, tool):
    def f(env, c):
        try:
            return run(Sub(env, tool), c)
        except Violation as e:
            if MARK.search(str(e)):
                raise
            return Result(False, ["another check's matter"])
    return f


def prepare(ctx):
    os.environ.update(TOOL_ENV)
    ctx.sub = {}
    jobs = {}
    for tool in ("san", "vg"):
        s = types.SimpleNamespace(path=ctx.path, note=ctx.note, scratch=ctx.scratch, srv={}, prog={}, exes={})
        ctx.sub[tool] = s
        cs, fs = (SAN, FSAN) if tool == "san" else ([], [])
        suf = "@" + tool
        jobs.update(uc.jobs_for(s, uc.CXX, opt=("-O1",), san=cs, suffix=suf))
        jobs.update(uc.jobs_for(s, uc.FORTRAN, opt=("-O1",) if tool == "vg" else ("-O0",), san=fs, suffix=suf))
        s.srv = {k[:-len(suf)]: v for k, v in s.srv.items()}
        for n in ("decomp", "iter", "parser", "vtk"):
            jobs["lib:%s%s" % (n, suf)] = lib_job(s, n, cs, suf)
        exe = ctx.path("mm" + suf)
        md = exe + ".mod"
        os.makedirs(md)
        F = ["gfortran", "-O1", "-g", "-fopenmp", *build.DEFS, *fs]
        s.exes["mm"] = exe
        jobs["matmult-server" + suf] = build.seq(
            F + ["-J" + md, "-c", "-o", exe + ".o", build.src("matmult", "fortran", "matmult.F90")],
            ["objcopy", "-W", "main", exe + ".o"],
            F + ["-I" + md, "-c", "-o", exe + "_d.o", build.h("srv_matmult.F90")],
            F + ["-o", exe, exe + "_d.o", exe + ".o"])
        for p in cl.CXX:
            name = {v: k for k, v in uc.PROGRAM.items()}[p]
            s.prog[p] = ctx.path(p + suf)
            extra = ["-foffload=disable"] if p == "upwindOMP5Cxx" else []
            jobs["program:" + p + suf] = build.seq(
                ["g++", "-std=gnu++11", "-O1", "-g", "-fopenmp", *build.DEFS, *cs, *extra, "-I" + build.src("cxx"),
                 "-I" + build.src("upwind", "cxx"), "-o", s.prog[p], build.src("upwind", "cxx", name + ".cxx")]
                + build.lib_sources(mpi=False))
        for p in cl.FORTRAN + ["matmult"]:
            s.prog[p] = ctx.path(p + suf)
            md = s.prog[p] + ".mod"
            os.makedirs(md)
            srcf = uc.f_source(p) if p != "matmult" else build.src("matmult", "fortran", "matmult.F90")
            jobs["program:" + p + suf] = build.seq(F + ["-J" + md, "-o", s.prog[p], srcf])

        def mock(s=s, cs=cs, suf=suf):
            mc.build_mock(s, ("filter", "laplacian", "upmpi"), san=cs or ["-DMOCK_PLAIN_NEW"], suffix=suf)
        jobs["mock" + suf] = mock
    res = build.parallel(jobs)
    for k, e in res.items():
        if e is None:
            continue
        ctx.note("%s cannot be built: %s" % (k, str(e)[-500:]))
        base, _, tool = k.rpartition("@") if "@" in k else (k, "", "")
        kind, _, n = base.partition(":")
        s = ctx.sub[tool]
        if kind == "program":
            del s.prog[n]
        elif kind == "lib" or kind == "matmult-server":
            s.exes.pop(n or "mm", None)
        elif kind in s.srv:
            del s.srv[kind]
    if not any(s.prog for s in ctx.sub.values()):
        build.require(res)
    for tool, s in ctx.sub.items():
        s.lib = {k.split("@")[0]: v for k, v in getattr(s, "lib", {}).items()}
        s.prog = {k: (VALGRIND if tool == "vg" else []) + [v] for k, v in s.prog.items()}


def lib_job(s, n, cs, suf):
    exe = s.path("srv_%s%s" % (n, suf))
    s.exes[n] = exe
    return build.seq(["g++", "-std=gnu++11", "-g", "-O1", *cs, "-I" + build.src("cxx"), "-I" + build.HARNESS, "-o", exe,
                      build.h("srv_%s.cpp" % n)] + build.lib_sources(mpi=False))


# --- solvers ---------------------------------------------------------------------------------------

@st.composite
def solver_case(draw, impl, max_cells):
    """Up to three objects, made, stepped, printed, saved and deleted in any order."""
    ops = []
    live = {}
    f = impl in uc.FORTRAN
    for i in range(draw(st.integers(4, 12))):
        k = draw(st.integers(0, 2)) if i > 1 else 0
        if i == 1:
            ops.append(["adv", 0, draw(st.integers(1, 3)), draw(uc.time_step(live[0], True))])
            continue
        if k not in live or draw(st.sampled_from([False] * 5 + [True])):
            p = draw(uc.problem(3 if impl in uc.ONLY3 else draw(st.sampled_from([1, 2, 3, 3, 4] + ([] if f else [5]))),
                                max_cells))
            ops.append(["new", k, p["v"], p["l"], p["n"]])
            live[k] = p
            continue
        o = draw(st.sampled_from(["adv", "adv", "adv", "f", "sum", "std", "vtk", "del"]))
        if o == "adv":
            ops.append(["adv", k, draw(st.integers(0, 4)), draw(uc.time_step(live[k], True))])
        elif o == "vtk":
            ops.append(["vtk", k, "FILE"])
        else:
            ops.append([o, k])
            if o == "del":
                del live[k]
    return {"impl": impl, "ops": ops, "thr": draw(st.sampled_from([1, 2, 3]))}


def run_solver(env, c):
    d = env.fresh_dir()
    ops = [["thr", c["thr"]]] if c["impl"] in uc.THREADED + ["upwindF03"] else []
    ops += [o[:2] + [os.path.join(d, "f.vtk")] if o[0] == "vtk" else o for o in c["ops"]]
    what = "%s, operations %s" % (c["impl"], c["ops"])
    uc.run_ops(env, c["impl"], ops, what)
    return Result(any(o[0] == "adv" and o[2] for o in c["ops"]), sorted({o[0] for o in c["ops"]}), len(ops))


# --- the parser, also with lines outside the domain of C15 -----------------------------------------

ANY = st.one_of(st.sampled_from(["", "-", "--", "-1", "-x", "=", "-numCells", "-h", "7", "1e999", "-9999999999999999999",
                                 "nan", "0x10", "%s%n", "-1.5e-400"]),
                st.text(st.characters(blacklist_characters="\x00", blacklist_categories=("Cs",)), max_size=8),
                st.integers(50, 5000).map(lambda n: "a" * n), st.integers(50, 3000).map(lambda n: "-" + "b" * n))


@st.composite
def wild_case(draw):
    c = draw(c15.case())
    words = [w for it in c["items"] for w in it]
    for _ in range(draw(st.integers(0, 5))):
        words.insert(draw(st.integers(0, len(words))), draw(st.one_of(ANY, st.sampled_from([o[1] for o in c["opts"]] or ["-h"]))))
    if c["opts"] and draw(st.booleans()):
        words.append(draw(st.sampled_from(c["opts"]))[1])     # its value is missing
    return dict(c, items=[[w] for w in words])


def run_wild(env, c):
    """The request of C15; only that the parser survives."""
    srv = env.server("parser", [env.ctx.exes["parser"]])
    line = [hx(c["purpose"]), hx(c["foot"]), str(len(c["opts"]))]
    for t, n, d, h in c["opts"]:
        line += [t, hx(n), float(d).hex() if t == "d" else hx(d) if t == "s" else str(int(d)), hx(h)]
    words = ["/bin/prog"] + [w for it in c["items"] for w in it]
    line += [str(len(words))] + [hx(w) for w in words]
    qs = [(t, n) for n in [o[1] for o in c["opts"]] + ["-h", "", "none"] for t in "disb"]
    line.append(str(len(qs)))
    for t, n in qs:
        line += [t, hx(n)]
    ask(srv, " ".join(line), "parser, options %s, command line %s" % (c["opts"], words))
    return Result(len(words) > 1, ["parser"])


def with_exe(run, name):
    def f(env, c):
        env.ctx.exe = env.ctx.exes[name]
        return run(env, c)
    return f


# --- command lines ---------------------------------------------------------------------------------

GARBAGE = st.one_of(
    st.sampled_from(["-", "--", "-v", "-numCell", "-numCells=4", "vtk", "-vtk", "-std", "-h", "--help", "x", "5.5", "-1", "0",
                     "1e3", "/", ",", "2*3", "nan", "%n%s", "'", "\"", "-numDims", "*"]),
    st.text(st.characters(min_codepoint=1, max_codepoint=0x2ff), min_size=1, max_size=6),
    st.integers(20, 4000).map(lambda n: "z" * n), st.integers(20, 3000).map(lambda n: "-" + "q" * n),
    st.integers(20, 900).map(lambda n: "7" * 1 + " " * n))
CELLS = st.one_of(st.integers(1, 4), st.integers(1, 12)).map(str)
STEPS = st.one_of(st.integers(0, 6).map(str), st.sampled_from(["40", "-3", "abc", "", "2.5", "1x", "+4", "-", "007"]))


@st.composite
def cxx_line(draw, prog):
    dims = prog == "laplacian"
    first = ["-numCells", draw(CELLS)]
    opts = ["-vtk", "-std", "-h", "-numSteps", "-numDims"]
    a = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 5))
        if k < 3:
            o = draw(st.sampled_from(opts))
            a.append(o)
            if o == "-numSteps":
                a.append(draw(STEPS))
            elif o == "-numDims":
                a.append(draw(st.sampled_from(["1", "2", "3", "0", "-1", "x", "4"])))
        elif k < 5:
            a.append(draw(GARBAGE))
        else:
            a += ["-numCells", draw(CELLS)]
    # values that would be large sizes are left out
    a = [w for i, w in enumerate(a) if not (re.match(r"\s*\+?\d{3,}", w))]
    a = first + a + draw(st.sampled_from([[], [], ["-numSteps"], ["-numCells"], ["-vtk"], ["-numSteps", "2"]]))
    if dims:
        a += ["-numCells", draw(st.sampled_from(["1", "2", "4"]))]
    # an option that is the value of another one: no size may be lost that way
    for i, w in enumerate(a[:-1]):
        if w == "-numCells" and not re.match(r"\+?[1-9]\d?\Z", a[i + 1]):
            a[i] = "-vtk"
    return a


@st.composite
def program_case(draw, progs):
    p = draw(st.sampled_from(progs))
    if p in cl.CXX:
        return {"prog": p, "args": draw(cxx_line(p)), "thr": draw(st.sampled_from([1, 3]))}
    if p == "matmult":
        n = draw(st.integers(0, 5))
        a = [draw(st.one_of(CELLS, st.sampled_from(["+3", "/", ",", "2*3", "abc", "1.", "'", "7/", " 5", "3 4"]))) for _ in range(min(n, 3))]
        return {"prog": p, "args": a + [draw(GARBAGE) for _ in range(n - 3)], "thr": draw(st.sampled_from([1, 3]))}
    n = draw(st.integers(0, 5))
    a = [draw(st.one_of(CELLS, CELLS, CELLS, st.sampled_from(["abc", "+3", "/", ",", "2*3", "1.5", "vtk", "-h", "'", "x" * 500]))),
         draw(st.one_of(STEPS.filter(bool), st.integers(0, 9).map(str), st.sampled_from(["/", ",", "2*3", "y" * 400]))),
         draw(st.one_of(st.just("vtk"), GARBAGE)), draw(GARBAGE), draw(GARBAGE)][:n]
    return {"prog": p, "args": a, "thr": draw(st.sampled_from([1, 3]))}


def run_program(env, c):
    try:
        r = cl.run(env, c["prog"], c["args"], threads=c["thr"], timeout=100)
    except Violation:
        raise Inconclusive("no end within 100 s: %s %s" % (c["prog"], c["args"]))
    text = r.out[-3000:] + "\n" + r.err[:3000] + r.err[-2000:]
    check(r.rc >= 0 and r.rc != 97 and not MARK.search(text), "%s: status %s\n%s", r.what, r.rc, text)
    return Result(bool(c["args"]), ["%s: status %s" % (c["prog"], "0" if r.rc == 0 else "not 0")])


@st.composite
def mpi_line_case(draw):
    p = draw(st.sampled_from(["laplacian", "upmpi"]))
    return {"prog": p, "args": draw(cxx_line("laplacian" if p == "laplacian" else "upwindCxx")), "ranks": draw(
        st.sampled_from([1, 1, 2, 3, 4])), "sched": draw(mc.SCHED)}


def run_mpi_line(env, c):
    what = "%s %s on %d simulated ranks (schedule %s)" % (c["prog"], c["args"], c["ranks"], c["sched"])
    cwd = mc.mock_cwd(env, c["prog"])
    if os.path.isdir(cwd):
        mc.clean_dir(cwd)
    r = mc.mock_run(env, c["prog"], c["ranks"], c["sched"], c["prog"] + "_main", [c["prog"]] + c["args"], what,
                    timeout=200)
    for e in r.errors:
        check(not MARK.search(e), "%s: %s", what, e)
    return Result(True, [c["prog"]])


def run_mock_program(env, c):
    what = c10.name(c, "simulated")
    cwd = mc.mock_cwd(env, c["prog"])
    if os.path.isdir(cwd):
        mc.clean_dir(cwd)
    r = mc.mock_run(env, c["prog"], c["ranks"], c["sched"], c["prog"] + "_main", [c["prog"]] + c10.argv(c), what,
                    timeout=200)
    for e in r.errors:
        check(not MARK.search(e), "%s: %s", what, e)
    return Result(c["ranks"] > 1, [c["prog"]])


def run_filters(env, c):
    ev = mc.run_mock_case(env, c, False)
    return Result(mc.nontrivial(c), mc.labels_of(c), ev)


def run_mul(env, c):
    b, md = env.ctx.path, env.ctx.exes["mm"]
    env.ctx.path = lambda *a: md
    try:
        return c19.run_mul(env, c)
    finally:
        env.ctx.path = b


def targets(ctx):
    out = []

    def add(tool, name, strategy, run, quick, thorough=None, **kw):
        if tool == "vg":                     # valgrind starts slowly, and every shard has its own minimal case
            kw["shards"] = 1 if quick < 50 else 2
        out.append(Target("%s:%s" % (tool, name), strategy, guard(run, tool), quick, thorough or quick * 30, **kw))
    for tool, s in ctx.sub.items():
        q = tool == "san"
        for m in s.srv:
            add(tool, m, solver_case(m, 60 if q else 12), run_solver, 160 if q else 16)
        if "decomp" in s.exes:
            add(tool, "decomposition", c11.strategy(), with_exe(c11.run, "decomp"), 1500 if q else 30)
            add(tool, "neighbours", c13.strategy(), with_exe(c13.run, "decomp"), 800 if q else 20)
        if "iter" in s.exes:
            add(tool, "iterator", c14.strategy(), with_exe(c14.run, "iter"), 1500 if q else 60)
        if "parser" in s.exes:
            add(tool, "parser", st.one_of(c15.case(), wild_case()), run_wild, 3000 if q else 100)
        if "vtk" in s.exes:
            add(tool, "writeVTK", c17.direct_case(), with_exe(c17.run_direct, "vtk"), 600 if q else 30)
        if "mm" in s.exes:
            add(tool, "matmult", c19.mul_case(), run_mul, 800 if q else 20)
        if "filter" in s.lib:
            add(tool, "filters", mc.filter_case(max_ranks=9, max_cells=60), run_filters, 700 if q else 24)
        if "laplacian" in s.lib and "upmpi" in s.lib:
            add(tool, "mpi-programs", st.one_of(c10.lap_case(6), c10.up_case(6)), run_mock_program, 200 if q else 12)
            add(tool, "mpi-command-lines", mpi_line_case(), run_mpi_line, 300 if q else 12)
        if s.prog:
            ex = [{"prog": p, "args": a, "thr": 1} for p in s.prog for a in (
                ([] if p not in cl.CXX else ["-h"]), ["-numCells", "5", "-numSteps", "2", "-vtk", "-std"]
                if p in cl.CXX else ["5", "2", "vtk"])] if q else []
            add(tool, "command-lines", program_case(sorted(s.prog)), run_program, 500 if q else 40, examples=ex)
    return out
