"""Runs the MPI Python program with a simulated clock, under mpiexec.

argv: directory of the program, then its arguments. A rank's clock shows what its calls of the solver took: all of a
kind take the same time on a rank. Every rank prints, at the end, the time of its advect calls and the number of
looks at the clock."""
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from mpi4py import MPI
import upwindMPI

rank = MPI.COMM_WORLD.Get_rank()
now = 1000.0 * rank + 3.5
looks = 0
spent = {}


def clock():
    global looks
    looks += 1
    return now


def timed(name, cost):
    f = getattr(upwindMPI.Upwind, name)

    def g(*a, **k):
        global now
        now += cost
        spent[name] = spent.get(name, 0.0) + cost
        return f(*a, **k)
    setattr(upwindMPI.Upwind, name, g)


MPI.Wtime = clock
for k, (n, c) in enumerate((("advect", 0.25), ("checksum", 77.0), ("gatherRoot", 1001.0), ("__init__", 4003.0))):
    if hasattr(upwindMPI.Upwind, n):
        timed(n, c * (1 + rank % 4))
sys.argv = ["upwindMPI.py"] + sys.argv[2:]
upwindMPI.main()
sys.stdout.flush()
print("=SPENT %d %r %d" % (rank, spent.get("advect", 0.0), looks))
sys.stdout.flush()
