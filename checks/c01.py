"""C01: all upwind programs solve the same problem and agree with each other."""
from hypothesis import strategies as st

from checks import cli_common as cl
from checks import decomp_common as dc
from vlib.core import Result, Target

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("Random numbers of cells per axis (1-64, in part up to 136) and of time steps (0-80, in part up to 1500; 1- for the C++ MPI program); every "
        "program of the suite is run on each (the five C++ programs, the four Fortran programs, the serial "
        "Python program; the two MPI programs on 1-8 ranks), with random thread counts. Each program's check "
        "sum, its std where it prints one, and the values of the VTK file it writes are compared with an "
        "independent numpy upwind solution, and so with each other. A case is non-trivial when there are at "
        "least two cells per axis and one step.")
ASSUMPTIONS = ["agreement to the printed precision: 6 digits (C++), 9 decimals (Fortran), all digits (Python); "
               "the cells of the VTK file relatively to 6e-6",
               "upwindOMP5 is built with host fallback (the project builds it only for offloading)",
               "the MPI programs run on rank counts that decompose the grid uniformly"]


def prepare(ctx):
    cl.build_programs(ctx, parts=("lib", "upwind_cxx", "fortran"))


@st.composite
def sizes(draw, min_steps=0, max_cells=40):
    n = draw(st.one_of(st.integers(1, 12), st.integers(2, 20), st.integers(1, max_cells)))
    top = 80 if n <= 10 else 30 if n <= 20 else 8
    return n, draw(st.one_of(st.integers(min_steps, 6), st.integers(min_steps, top)))


@st.composite
def serial_case(draw, progs):
    n, steps = draw(sizes(max_cells=64))
    return {"n": n, "steps": steps, "vtk": draw(st.sampled_from([True] * 7 + [False])), "std": draw(st.booleans()),
            "thr": draw(st.sampled_from([1, 2, 3, 4, 8])), "progs": progs}


@st.composite
def big_case(draw, progs):
    """Sizes of the default problem (128 cells per axis) and around, or many steps."""
    if draw(st.booleans()):
        n = draw(st.one_of(st.integers(65, 136), st.sampled_from([100, 101, 127, 128, 129])))
        steps = draw(st.integers(1, 4))
    else:
        n = draw(st.integers(1, 7))
        steps = draw(st.integers(81, 1500))
        if draw(st.integers(0, 4)) == 0:
            n, steps = draw(st.integers(1, 2)), draw(st.integers(32760, 36000))
    return {"n": n, "steps": steps, "vtk": n <= 80, "std": True,
            "thr": draw(st.sampled_from([1, 2, 4, 8, 16])), "progs": progs}


def run_serial(env, c):
    lab = []
    for p in c["progs"]:
        r = cl.run(env, p, cl.argv(p, c["n"], c["steps"], c["vtk"], c["std"] and p in cl.HAS_STD),
                   threads=c["thr"])
        lab += [p + ": " + x for x in cl.judge_standard(r, p, c["n"], c["steps"], c["vtk"], c["std"])]
    return Result(c["n"] > 1 and c["steps"] > 0, lab, len(c["progs"]))


@st.composite
def mpi_case(draw):
    n, steps = draw(sizes(min_steps=1, max_cells=24))
    good = [r for r in range(1, 9) if dc.valid_decomps(r, [n] * 3)]
    many = [r for r in good if r > 1]
    r = draw(st.sampled_from(many if many and draw(st.integers(0, 4)) else good))
    return {"n": n, "steps": steps, "ranks": r, "vtk": draw(st.sampled_from([True] * 7 + [False]))}


def run_mpi(env, c):
    lab = []
    for p in cl.MPI:
        r = cl.run(env, p, cl.argv(p, c["n"], c["steps"], c["vtk"]), threads=1, ranks=c["ranks"])
        lab += [p + ": " + x for x in cl.judge_standard(r, p, c["n"], c["steps"], c["vtk"])]
    return Result(c["n"] > 1, lab + ["%d ranks" % c["ranks"]], 2)


def program_targets(ctx, progs):
    """The programs on their standard problem, for checks whose harness does not fit the sources."""
    if not hasattr(ctx, "prog"):
        cl.build_programs(ctx, parts=("lib", "upwind_cxx", "fortran"))
    return [Target("program-" + p, serial_case([p]), run_serial, 240, 4000) for p in progs]


def targets(ctx):
    return [Target("programs", serial_case(cl.SERIAL), run_serial, 160, 5000),
            Target("programs-big", big_case(cl.SERIAL), run_serial, 24, 300, weight=6),
            Target("mpi", mpi_case(), run_mpi, 48, 1600, weight=5)]
