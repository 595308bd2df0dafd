"""C08: the distributed stencil filter equals the serial periodic stencil."""
from checks import mpi_common as mc
from vlib.core import Result, Target

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("1-3 filters at a time on grids of 1-4 axes over 1-16 ranks, or 1-6 axes over 17-100 ranks (in part without a uniform "
        "decomposition), axis-aligned stencils with offsets up to the extent of the adjacent "
        "sub-domain, histories of set by position / by index / apply / copy / check sums / destroy, "
        "compared cell by cell on every rank with a serial periodic stencil (numpy) and the check "
        "sums with its sums; the windows, as fetched from the neighbour and as printed, with the input there; in part grids of more than 65536 cells per rank. Simulated MPI (one seeded schedule per case), and batches under the "
        "real mpiexec. A case is non-trivial when a filter with a valid decomposition and a non-zero "
        "off-centre weight is applied.")
ASSUMPTIONS = [
    "stencil offsets lie along one axis and reach no further than the adjacent sub-domain",
    "the input is set before the first apply; copy and output come after an apply",
    "values agree to 1e-11 of the sum of magnitudes that enter them",
    "MPI is the simulation of harness/mockmpi, and for a part of the cases Open MPI"]


def prepare(ctx):
    mc.build_mock(ctx, ("filter",), real=True)


def run_mock(env, c):
    ev = mc.run_mock_case(env, c, False)
    return Result(mc.nontrivial(c), mc.labels_of(c), ev)


def run_real(env, b):
    ev = mc.run_real_batch(env, b)
    return Result(any(mc.nontrivial(c) for c in b["cases"]),
                  sorted({l for c in b["cases"] for l in mc.labels_of(c)}), ev)


def targets(ctx):
    out = []
    if "filter" in ctx.lib:
        out.append(Target("simulated-mpi", mc.filter_case(max_ranks=16, windows=True), run_mock, 4000, 120000))
        out.append(Target("simulated-mpi-many-ranks", mc.filter_case(
            windows=True, min_ranks=17, max_ranks=100, max_cells=400, max_dims=6, nfilters=(1, 1, 1, 2), max_ops=5), run_mock, 240, 8000,
            weight=2))
        out.append(Target("simulated-mpi-long", mc.filter_case(max_ranks=8, max_cells=40, windows=True, nfilters=(1, 1, 2), max_ops=150),
                          run_mock, 200, 6000, weight=2))
        out.append(Target("simulated-mpi-large", mc.large_filter_case(), run_mock, 24, 400, weight=4))
        real = (48, 1500)
    else:
        real = (160, 3000)
    out.append(Target("real-mpi", mc.real_batch(), run_real, *real, weight=5))
    return out
