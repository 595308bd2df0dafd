"""C09: the filter's result holds under every schedule MPI allows, with clean MPI use."""
import os

from hypothesis import strategies as st

from checks import c10
from checks import mpi_common as mc
from vlib.core import Result, Target
from vlib.util import check

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("Filter histories as in C08, each under several seeded schedules of a simulated MPI: every MPI "
        "call is a scheduling point, ranks run in random, run-to-block or changing-priority order, "
        "one-sided reads complete at once, at random or as late as the closing fence, synchronising "
        "calls block as much or as little as the standard allows, received buffers hold NaN until "
        "delivery. Judged: the result of C08 under every schedule, no deadlock, matching collectives, "
        "accesses inside an epoch and a window, no store to a window being read, fence assertions "
        "that are true, windows freed before their memory, and after the filters are destroyed no "
        "window, MPI memory or heap block left. A case is non-trivial when at least two ranks "
        "exchange data or at least one window is created.")
ASSUMPTIONS = [
    "the simulation of harness/mockmpi stands for MPI: schedules are those of its scheduler (ranks "
    "interleave at MPI calls; the ranks share no memory otherwise)",
    "ranks make the same sequence of calls on their filters"]


def prepare(ctx):
    mc.build_mock(ctx, ("filter", "laplacian", "upmpi"), real=True)


def run_mock(env, c):
    ev = mc.run_mock_case(env, c, True)
    return Result(mc.nontrivial(c), mc.labels_of(c), ev)


@st.composite
def program_case(draw):
    c = draw(st.one_of(c10.lap_case(8), c10.up_case(8)))
    c["steps"] = min(c.get("steps", 1), 4)
    c["n"] = min(c["n"], 8)
    return dict(c, scheds=[draw(mc.SCHED) for _ in range(3)])


def run_programs(env, c):
    for s in c["scheds"]:
        what = c10.name(c, "simulated") + " (schedule %s)" % s
        cwd = mc.mock_cwd(env, c["prog"])
        if os.path.isdir(cwd):
            mc.clean_dir(cwd)
        r = mc.mock_run(env, c["prog"], c["ranks"], s,
                        "laplacian_main" if c["prog"] == "laplacian" else "upmpi_main",
                        [c["prog"]] + c10.argv(c), what, repeat=2)
        check(not r.errors, "%s: %s", what, r.errors)
        c10.judge(c, "\n".join(r.out), "\n".join(r.err), cwd, what)
        check(r.leak[0] == 0 and r.leak[1] == 0, "%s: %d windows and %d blocks of MPI memory were never "
              "freed", what, r.leak[0], r.leak[1])
        check(r.leak[2] <= 0, "%s: %d heap blocks stay allocated", what, r.leak[2])
    return Result(c["ranks"] > 1, [c["prog"]], len(c["scheds"]))


def run_real(env, b):
    ev = mc.run_real_batch(env, b)
    return Result(any(mc.nontrivial(c) for c in b["cases"]), ["real MPI"], ev)


def targets(ctx):
    if "filter" not in ctx.lib:      # calls the simulation does not have
        return [Target("real-mpi", mc.real_batch(), run_real, 160, 3000)]
    return [Target("schedules", mc.filter_case(max_ranks=9, max_cells=72, nsched=4, max_dims=3),
                   run_mock, 1600, 50000),
            Target("schedules-many-filters",
                   mc.filter_case(max_ranks=6, max_cells=36, nsched=4, max_dims=3, nfilters=(2, 3),
                                  max_ops=12), run_mock, 700, 20000)] + \
        ([Target("programs", program_case(), run_programs, 300, 8000)]
         if "laplacian" in ctx.lib and "upmpi" in ctx.lib else [])
