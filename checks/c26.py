"""C26: what the programs report about a run - times and threads - is true."""
import os
import re
import time

from hypothesis import strategies as st

from checks import c10
from checks import cli_common as cl
from checks import decomp_common as dc
from checks import mpi_common as mc
from vlib import build
from vlib.core import Inconclusive, Result, Target, run_cmd
from vlib.util import check

PROPERTY = "C26"
LEVEL = "exploration"
THREADED = ["upwindCxx", "upwindOMPTasksCxx", "upwindFortran", "upwindF03", "upwindF08Gpu"]
RULE = ("laplacian and upwindMpiCxx on 1-72 simulated ranks under generated schedules, each rank with a clock of its own "
        "which shows the data transfers the rank has made (of a generated duration, from a generated origin): the "
        "minimum, maximum and mean reported, against the clocks; the same with Open MPI on 1-8 ranks, against the time "
        "the whole run took; upwindMPI.py under Open MPI with a clock that shows its calls of the solver. The programs "
        "that report their threads, on 1-130 threads, also when a thread limit leaves fewer than asked for. A case is non-trivial with at least two ranks (one for the Python "
        "program) or threads.")
ASSUMPTIONS = ["in the simulation only transfers take time; what else the timed section holds is not judged",
               "numbers are compared to the digits printed",
               "libgomp gives as many threads as are asked for, up to OMP_THREAD_LIMIT"]


def prepare(ctx):
    mc.build_mock(ctx, ("laplacian", "upmpi"), real=True)
    cl.build_programs(ctx, parts=("lib", "upwind_cxx", "fortran"), omp5=False)


def reported(out, what):
    """{"min": .., "max": .., "avg": ..} or None."""
    lines = [l for l in out.split("\n") if re.search(r"\btimes?\b", l, re.I) and re.search(r"min.*max|max.*min", l, re.I)]
    check(len(lines) == 1, "%s: the times are reported in %d lines: %s", what, len(lines), lines)
    head, _, tail = lines[0].partition(":")
    names = re.findall(r"min|max|avg|mean|average", head, re.I)
    nums = c10.FLOAT.findall(tail)
    check(len(nums) == len(names), "%s: %r", what, lines[0])
    res = {n.lower(): float(x) for n, x in zip(names, nums)}
    for k in ("mean", "average"):
        if k in res:
            res["avg"] = res.pop(k)
    return res


@st.composite
def any_case(draw, prog, max_ranks=16):
    c = draw(c10.lap_case(max_ranks) if prog == "laplacian" else c10.up_case(max_ranks))
    if not dc.valid_decomps(c["ranks"], [c["n"]] * c["d"]):
        c["ranks"] = 1
    return c


def run_mock(env, c):
    def one(c):
        what = c10.name(c, "simulated") + " (schedule %s)" % c["sched"]
        cwd = mc.mock_cwd(env, c["prog"])
        if os.path.isdir(cwd):
            mc.clean_dir(cwd)
        r = mc.mock_run(env, c["prog"], c["ranks"], c["sched"],
                        "laplacian_main" if c["prog"] == "laplacian" else "upmpi_main", [c["prog"]] + c10.argv(c), what)
        check(not r.errors, "%s: %s", what, r.errors)
        check(not any(r.exit), "%s: exit statuses %s", what, r.exit)
        return r, reported("\n".join(r.out), what), what
    # without a file to write, all transfers belong to the benchmark
    r, got, what = one(dict(c, vtk=False))
    want = {"min": min(r.work), "max": max(r.work), "avg": sum(r.work) / len(r.work)}
    runs = [(what, got)]
    if c["vtk"]:
        _, got, what = one(c)
        runs.append((what, got))
    for what, got in runs:
        for k, x in got.items():
            check(abs(x - want[k]) <= 1e-5 * abs(want[k]) + 2e-4, "%s: the %s time reported is %r; the ranks' transfers took %s, "
                  "hence %r", what, k, x, r.work[:12], want[k])
    return Result(c["ranks"] > 1, [c["prog"]] + (["with file"] if c["vtk"] else []))


def run_real(env, c):
    what = c10.name(c, "Open MPI")
    d = env.fresh_dir()
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd)
    t = time.monotonic()
    rc, o, e = run_cmd(build.mpiexec(c["ranks"], [env.ctx.real[c["prog"]]] + c10.argv(c)), cwd=cwd,
                       env=build.env(TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d), timeout=100)
    t = time.monotonic() - t
    if rc is None and os.getloadavg()[0] > 40:
        raise Inconclusive("mpiexec timed out on a loaded machine")
    check(rc == 0, "%s: exit status %s\n%s\n%s", what, rc, o[-800:], e[-800:])
    got = reported(o, what)
    for k, x in got.items():
        check(-1e-6 <= x <= t * 1.01 + 0.01, "%s: the %s time reported is %r s, the whole run took %.3f s", what, k, x, t)
    if len(got) == 3:
        eps = 2e-5 * got["max"]
        check(got["min"] <= got["avg"] + eps and got["avg"] <= got["max"] + eps, "%s: times %s", what, got)
    return Result(c["ranks"] > 1, [c["prog"]])


@st.composite
def py_case(draw):
    n = draw(st.integers(1, 6))
    ranks = draw(c10.ranks_for([n] * 3, 8))
    if not dc.valid_decomps(ranks, [n] * 3):
        ranks = 1
    return {"n": n, "ranks": ranks, "steps": draw(st.integers(0, 40)), "vtk": draw(st.booleans())}


def run_py(env, c):
    args = [str(c["n"]), str(c["steps"])] + (["vtk"] if c["vtk"] else [])
    what = "upwindMPI.py %s on %d ranks with a simulated clock" % (" ".join(args), c["ranks"])
    d = env.fresh_dir()
    rc, o, e = run_cmd(build.mpiexec(c["ranks"], [build.VENV_PY, build.h("mpi_upwind_time.py"), build.src("upwind", "python")]
                                     + args), cwd=d, env=build.env(TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d, OMP_NUM_THREADS=1),
                       timeout=150)
    if rc is None and os.getloadavg()[0] > 40:
        raise Inconclusive("mpiexec timed out on a loaded machine")
    check(rc == 0, "%s: exit status %s\n%s", what, rc, e[-1500:])
    spent = {int(a): (float(b), int(k)) for a, b, k in re.findall(r"=SPENT (\d+) (\S+) (\d+)", o)}
    check(len(spent) == c["ranks"], "harness: %s\n%s", what, o)
    if not any(k for _, k in spent.values()):
        raise Inconclusive("%s: the program looks at another clock" % what)
    lines = [l for l in o.split("\n") if re.search(r"time spent", l, re.I)]
    check(len(lines) == 1, "%s: the time is reported in %d lines", what, len(lines))
    x = c10.FLOAT.findall(lines[0].partition(":")[2])
    check(len(x) == 1 and abs(float(x[0]) - spent[0][0]) <= 1e-9 * (1 + spent[0][0]), "%s: %r, the steps took %r",
          what, lines[0], spent[0][0])
    return Result(c["steps"] > 0, ["%d ranks" % c["ranks"]])


@st.composite
def thread_case(draw):
    return {"thr": draw(st.one_of(st.integers(1, 8), st.integers(1, 40), st.integers(1, 130))), "n": draw(st.integers(1, 6)),
            "steps": draw(st.integers(0, 3)), "limit": draw(st.one_of(st.none(), st.none(), st.integers(1, 140)))}


def run_threads(env, c):
    os.environ["OMP_DYNAMIC"] = "false"
    os.environ.pop("OMP_THREAD_LIMIT", None)
    if c["limit"]:
        os.environ["OMP_THREAD_LIMIT"] = str(c["limit"])
    team = min(c["thr"], c["limit"] or c["thr"])
    for p in THREADED:
        r = cl.run(env, p, cl.argv(p, c["n"], c["steps"]), threads=c["thr"])
        check(r.rc == 0, "%s: exit status %s\n%s", r.what, r.rc, r.err[-1500:])
        said = [x for x in r.out.split("\n") if re.search(r"\bthreads?\b", x, re.I) and re.search(r"\d", x)]
        check(len(said) == 1, "%s: the number of threads is reported in %d lines: %s", r.what, len(said), said[:4])
        nums = [int(x) for x in re.findall(r"\d+", said[0])]
        check(nums and nums[0] == team and all(x in (team, c["thr"]) for x in nums), "%s, OMP_THREAD_LIMIT %s: %r", r.what,
              c["limit"], said[0])
    return Result(c["thr"] > 1, [("%d threads" % team if team < 9 else "more threads")] + (["limited"] if team < c["thr"] else []),
                  len(THREADED))


def targets(ctx):
    out = [Target("threads", thread_case(), run_threads, 100, 2500, weight=2)]
    for w in ("laplacian", "upmpi"):
        if w in ctx.lib:
            out.append(Target(w + "-simulated", any_case(w), run_mock, 800, 20000))
        out.append(Target(w + "-real", any_case(w, 8), run_real, 16, 400, weight=5))
    out.append(Target("python", py_case(), run_py, 24, 600, weight=5))
    return out
