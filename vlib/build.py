"""Builds what a check needs from the working tree of the repository, in the check's scratch dir."""
import concurrent.futures
import glob
import os
import shutil
import subprocess

from .core import NPROC, REPO, VERIF


class BuildError(Exception):
    pass


HARNESS = os.path.join(VERIF, "harness")
VENV_PY = "/opt/vp/venv/bin/python"


def env(**kw):
    e = dict(os.environ)
    for k in ("DISPLAY", "VERIF_SEED", "VERIF_TIER"):
        e.pop(k, None)
    e["PATH"] = "/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update({
        "CC": "gcc", "CXX": "g++", "FC": "gfortran", "PYTHONDONTWRITEBYTECODE": "1",
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_rmaps_base_oversubscribe": "yes",
        "OMPI_MCA_hwloc_base_binding_policy": "none",
        "OMPI_MCA_btl": "self,vader",
        "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMPI_MCA_pml": "ob1", "OMPI_MCA_osc": "pt2pt", "MPI4PY_RC_THREAD_LEVEL": "single",
        "OMPI_MCA_plm": "isolated", "OMPI_MCA_mpi_yield_when_idle": "1",
        "OMPI_CXX": "g++", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C"})
    e.update({k: str(v) for k, v in kw.items()})
    return e


DEFS = ["-DHAVE_OPENMP", "-D_TEAMS=64", "-D_THREADS_PER_TEAM=32"]
CXXFLAGS = ["-std=gnu++11", "-O2", "-g", "-DNDEBUG", "-fopenmp"]


def src(*a):
    return os.path.join(REPO, *a)


def h(*a):
    return os.path.join(HARNESS, *a)


def run(argv, cwd=None, timeout=600):
    try:
        p = subprocess.run(argv, cwd=cwd, env=env(), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise BuildError("timeout: " + " ".join(argv))
    if p.returncode != 0:
        raise BuildError(" ".join(argv) + "\n" + p.stdout.decode(errors="replace")[-4000:])
    return p.stdout.decode(errors="replace")


def seq(*cmds, cwd=None):
    """A job: commands run one after the other."""
    def f():
        for c in cmds:
            run(c, cwd=cwd)
    return f


def parallel(jobs, jobs_at_once=NPROC):
    """jobs: {name: callable}. Returns {name: None or the BuildError}."""
    res = {}
    with concurrent.futures.ThreadPoolExecutor(jobs_at_once) as ex:
        fs = {n: ex.submit(j) for n, j in jobs.items()}
        for n, f in fs.items():
            try:
                f.result()
                res[n] = None
            except BuildError as e:
                res[n] = e
    return res


def require(res, *names):
    for n in names or res:
        if res[n] is not None:
            raise res[n]


def lib_sources(mpi=True):
    out = []
    for f in sorted(glob.glob(src("cxx", "*.cpp"))):
        if not mpi:
            with open(f, errors="replace") as fh:
                t = fh.read()
            hdr = f[:-4] + ".h"
            if os.path.exists(hdr):
                with open(hdr, errors="replace") as fh:
                    t += fh.read()
            if "mpi.h" in t:
                continue
        out.append(f)
    return out


# ---------------------------------------------------------------------------------------------
# programs on our own OpenMP runtime (harness/minigomp.cpp)

MG = ["-O1", "-g", "-DNDEBUG", "-fopenmp", "-fsanitize=thread", "-foffload=disable"]


def minigomp(ctx):
    """Builds the runtime once; returns its object file."""
    o = ctx.path("minigomp.o")
    if not os.path.exists(o):
        raw = [o + ".1.tmp", o + ".2.tmp", o + ".3.tmp", o + ".4.tmp"]
        for s, t in (("minigomp.cpp", raw[0]), ("minigomp_new.cpp", raw[1])):
            run(["g++", "-std=gnu++17", "-O2", "-g", "-fno-builtin", "-c", "-o", t, h(s)])
        # the runtime keeps its instances of library templates, and its memory, to itself
        run(["ld", "-r", "--force-group-allocation", "-o", raw[2], raw[0]])
        run(["objcopy", "--wildcard", "--localize-symbol=_ZNSt*", "--localize-symbol=_ZNKSt*", "--localize-symbol=_ZSt*",
             "--localize-symbol=_ZN9__gnu_cxx*", "--redefine-sym", "_Znwm=__mg_new", "--redefine-sym", "_ZdlPv=__mg_delete",
             "--redefine-sym", "_ZdlPvm=__mg_delete_sized", raw[2]])
        run(["ld", "-r", "-o", raw[3], raw[2], raw[1]])
        os.rename(raw[3], o)
    return o


def mg_job(ctx, exe, sources, flags=(), weaken=()):
    """A job: sources (C++ or Fortran; modules before their users) on minigomp.o, which must be built.
    weaken: indices of Fortran sources whose main program is not the one to run."""
    def f():
        objs = []
        md = exe + ".mod"
        os.makedirs(md, exist_ok=True)
        fortran = False
        for k, s in enumerate(sources):
            o = "%s.%d.o" % (exe, k)
            if s.lower().endswith((".f90", ".f")):
                fortran = True
                run(["gfortran", *MG, *flags, "-J" + md, "-I" + md, "-c", "-o", o, s])
            else:
                run(["g++", "-std=gnu++11", *MG, *flags, "-I" + src("cxx"), "-I" + src("upwind", "cxx"), "-I" + HARNESS,
                     "-c", "-o", o, s])
            run(["objcopy", "--redefine-syms=" + h("minigomp.syms")] + (["-W", "main"] if k in weaken else []) + [o])
            objs.append(o)
        run([("gfortran" if fortran else "g++"), "-no-pie", "-o", exe] + objs[::-1] + [ctx.path("minigomp.o"), "-lstdc++"])
    return f


# ---------------------------------------------------------------------------------------------
# the programs as the project builds them

CXX_PROGS = ["upwindCxx", "upwindOMPTasksCxx", "upwindAccCxx", "upwindAcc2Cxx"]
FORTRAN_PROGS = ["upwindFortran", "upwindF03", "upwindF08", "upwindF08Gpu"]


def cmake_build(ctx, name, extra=(), parts=("lib", "laplacian", "upwind_cxx", "fortran", "matmult")):
    """Configure and build the project in scratch/<name>. Returns {program: path}."""
    b = ctx.path(name)
    os.makedirs(b, exist_ok=True)
    run(["cmake", "-S", REPO, "-B", b, "-G", "Unix Makefiles",
         "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DPYTHON_EXECUTABLE=" + VENV_PY,
         "-DMPIEXEC_MAX_NUMPROCS=4", "-DNUM_PROCS=4"] + list(extra))

    def cxx():
        if any(p in parts for p in ("lib", "laplacian", "upwind_cxx")):
            run(["make", "-C", b + "/cxx", "-j8"])
        if "laplacian" in parts:
            run(["make", "-C", b + "/laplacian", "-j8"])
        if "upwind_cxx" in parts:
            run(["make", "-C", b + "/upwind/cxx", "-j8"])

    def fortran():
        if "fortran" in parts:
            run(["make", "-C", b + "/upwind/fortran"])
        if "matmult" in parts:
            run(["make", "-C", b + "/matmult"])
    res = parallel({"cxx": cxx, "fortran": fortran})
    require(res)
    return programs(b)


def programs(b):
    out = {}
    for d, names in (("laplacian/cxx", ["laplacian", "testStencil2d", "testCubeDecomp",
                                        "testMultiArrayIter"]),
                     ("upwind/cxx", CXX_PROGS + ["upwindMpiCxx", "upwindOMP5Cxx"]),
                     ("upwind/fortran", FORTRAN_PROGS), ("matmult/fortran", ["matmult"])):
        for n in names:
            p = os.path.join(b, d, n)
            if os.path.exists(p):
                out[n] = p
    return out


PY_PROGS = {"upwind.py": lambda: [VENV_PY, src("upwind", "python", "upwind.py")],
            "upwindMPI.py": lambda: [VENV_PY, src("upwind", "python", "upwindMPI.py")]}


def mpiexec(n, argv):
    return ["mpiexec", "-n", str(n)] + argv


def have(p):
    return shutil.which(p) is not None
