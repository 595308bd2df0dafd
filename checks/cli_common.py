"""The programs of the suite, run as a user runs them."""
import os
import re

from checks import upwind_model as um
from vlib import build
from vlib.core import Inconclusive, run_cmd
from vlib.util import check

CXX = ["upwindCxx", "upwindOMPTasksCxx", "upwindAccCxx", "upwindAcc2Cxx", "upwindOMP5Cxx"]
FORTRAN = build.FORTRAN_PROGS
PYTHON = ["upwind.py"]
SERIAL = CXX + FORTRAN + PYTHON
MPI = ["upwindMpiCxx", "upwindMPI.py"]
HAS_STD = ["upwindCxx", "upwindOMPTasksCxx", "upwindAcc2Cxx", "upwindOMP5Cxx"]
# what -vtk / vtk writes: the final field, and files besides it
VTK = {"upwindCxx": ("up1.vtk", ["up0.vtk"]), "upwindOMPTasksCxx": ("up1.vtk", ["up0.vtk"]),
       "upwindAccCxx": ("up.vtk", []), "upwindAcc2Cxx": ("up.vtk", []), "upwindOMP5Cxx": ("up.vtk", []),
       "upwind.py": ("up.vtk", []), "upwindMpiCxx": ("upMpi.vtk", []), "upwindMPI.py": ("upMPI.vtk", []),
       "laplacian": ("laplacian.vtk", [])}
for _p in FORTRAN:
    VTK[_p] = ("up.vtk", [])
NUMBER = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf(?:inity)?)"
FLOAT = re.compile(NUMBER, re.I)
SUM = re.compile(r"check\s*sums?", re.I)

OMP5_FLAGS = ["-fopenmp", "-DHAVE_OPENMP", "-DHAVE_OPENMP_OFFLOAD", "-D_TEAMS=64", "-D_THREADS_PER_TEAM=32",
              "-foffload=disable"]


def omp5_job(ctx, exe, opt=("-O2", "-g", "-DNDEBUG"), flags=None):
    return build.seq(["g++", "-std=gnu++11", *opt, *(OMP5_FLAGS if flags is None else flags),
                      "-I" + build.src("cxx"), "-I" + build.src("upwind", "cxx"), "-o", exe,
                      build.src("upwind", "cxx", "upwindOMP5.cxx")] + build.lib_sources(mpi=False))


def build_programs(ctx, parts=("lib", "laplacian", "upwind_cxx", "fortran", "matmult"), omp5=True):
    """ctx.prog[name] = argv of the program (without mpiexec)."""
    ctx.prog = {}
    jobs = {"cmake": lambda: ctx.prog.update({k: [v] for k, v in
                                              build.cmake_build(ctx, "progs", parts=parts).items()})}
    if omp5:
        jobs["omp5"] = omp5_job(ctx, ctx.path("upwindOMP5Cxx"))
    build.require(build.parallel(jobs))
    if omp5:
        ctx.prog["upwindOMP5Cxx"] = [ctx.path("upwindOMP5Cxx")]
    for k, f in build.PY_PROGS.items():
        ctx.prog[k] = f()
    return ctx.prog


class Ran:
    def __init__(self, rc, out, err, files, cwd, what):
        self.rc, self.out, self.err, self.files, self.cwd, self.what = rc, out, err, files, cwd, what

    def sums(self):
        """The numbers printed as check sums."""
        res = []
        for l in self.out.split("\n"):
            m = SUM.search(l)
            if m:
                res += [float(x) for x in FLOAT.findall(l[m.end():])]
        return res

    def after(self, word):
        """The numbers of the last line that has the word, after it."""
        res = None
        for l in self.out.split("\n"):
            m = re.search(word, l, re.I)
            if m:
                res = [float(x) for x in FLOAT.findall(l[m.end():])]
        return res

    def field(self, name):
        """The values of a VTK file, read leniently; None when there is no such list."""
        try:
            with open(os.path.join(self.cwd, name), errors="replace") as f:
                t = f.read()
            return [float(x) for x in re.split(r"LOOKUP_TABLE\s+default", t)[1].split()]
        except (OSError, IndexError, ValueError):
            return None


def argv(prog, n=None, steps=None, vtk=False, std=False):
    if prog in CXX or prog in ("upwindMpiCxx",):
        a = []
        if n is not None:
            a += ["-numCells", str(n)]
        if steps is not None:
            a += ["-numSteps", str(steps)]
        if vtk:
            a.append("-vtk")
        if std:
            a.append("-std")
        return a
    a = [] if n is None else [str(n)]
    if steps is not None:
        a.append(str(steps))
    if vtk:
        a.append("vtk")
    return a


def run(env, prog, args, threads=None, ranks=None, timeout=120):
    d = env.fresh_dir()
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd)
    a = env.ctx.prog[prog] + args
    what = "%s %s" % (prog, " ".join(args))
    if ranks:
        a = build.mpiexec(ranks, a)
        what = "mpiexec -n %d %s" % (ranks, what)
    kw = {} if threads is None else {"OMP_NUM_THREADS": threads}
    if threads is not None:
        what = "OMP_NUM_THREADS=%d %s" % (threads, what)
    rc, o, e = run_cmd(a, cwd=cwd, env=build.env(TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d,
                                                 OMP_WAIT_POLICY="passive", **kw), timeout=timeout)
    if rc is None and os.getloadavg()[0] > 40:
        raise Inconclusive("timed out on a loaded machine: " + what)
    check(rc is not None, "%s: no end after %d s\n%s\n%s", what, timeout, o[-500:], e[-500:])
    return Ran(rc, o, e, sorted(os.listdir(cwd)), cwd, what)


def precision(prog):
    """Half a unit of the last printed digit of a check sum near one, relative."""
    if prog in FORTRAN:
        return 6e-10
    if prog in CXX or prog in ("upwindMpiCxx", "laplacian"):
        return 6e-6
    return 1e-15


def judge_standard(r, prog, n, steps, vtk, std=False):
    """A run of n cells and so many steps against the reference. Returns the labels."""
    ref = um.standard(n, steps)
    check(r.rc == 0, "%s: exit status %s\n%s\n%s", r.what, r.rc, r.out[-800:], r.err[-1500:])
    s = r.sums()
    check(s, "%s: no check sum was printed:\n%s\n%s", r.what, r.out[-800:], r.err[-800:])
    tol = precision(prog) + 1e-13 * (1 + steps) + 1e-15 * n ** 3
    for x in s:
        check(abs(x - 1.0) <= tol, "%s: check sum %r, expected 1 within %.2g\n%s", r.what, x, tol,
              r.out[-800:])
    lab = []
    if std and prog in HAS_STD:
        x = r.after(r"\bstd\b")
        w = float(ref.std())
        check(x and abs(x[0] - w) <= 6e-6 * w + 1e-14, "%s: std %s, expected %r", r.what, x, w)
        lab.append("std")
    if vtk:
        f = r.field(VTK[prog][0])
        if f is None or len(f) != ref.size:
            lab.append("%s: no field read" % prog)
        else:
            flat = ref.reshape(-1)
            for i, x in enumerate(f):
                if not abs(x - flat[i]) <= 6e-6 * abs(flat[i]) + 1e-200:
                    check(False, "%s: cell %d of the written field is %r, the upwind scheme gives %r",
                          r.what, i, x, float(flat[i]))
            lab.append("field")
    return lab

