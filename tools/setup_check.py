"""setup_cmd: the checks build what they need themselves; verify only that the tools are there."""
import shutil
import sys
import hypothesis  # noqa: F401
import numpy  # noqa: F401
missing = [t for t in ("g++", "gfortran", "mpicxx", "mpiexec", "cmake", "make") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
print("ok: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
