"""Runs scripts over the Upwind class of the MPI Python program, under mpiexec.

argv: directory of the program, file of scripts (JSON list of op lists), file for the results."""
import json
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy
from mpi4py import MPI
import upwindMPI

res = []
root = MPI.COMM_WORLD.Get_rank() == 0
for ops in json.load(open(sys.argv[2])):
    S, A = {}, {}
    r = []
    for op in ops:
        k = op[1]
        if op[0] == "new":
            # solvers of the same problem are given the same arrays, which must stay as they are
            a = [A.setdefault(repr(x), (numpy.array(x, numpy.float64), x)) for x in op[2:4]]
            n = A.setdefault(repr(op[4]), (list(op[4]), op[4]))
            S[k] = upwindMPI.Upwind(a[0][0], a[1][0], n[0])
        elif op[0] == "adv":
            for _ in range(op[2]):
                S[k].advect(op[3])
        elif op[0] == "f":
            g = S[k].gatherRoot()
            if root:
                r.append(["f", k, [float(x) for x in numpy.array(g).reshape(-1)],
                          list(numpy.array(g).shape)])
        elif op[0] == "sum":
            s = S[k].checksum()
            if root:
                r.append(["sum", k, float(s)])
    for a, x in A.values():
        if list(a) != x:
            sys.stderr.write("an array of the caller, %s, is changed to %s\n" % (x, list(a)))
            MPI.COMM_WORLD.Abort(3)
    for k in sorted(S):
        del S[k]
    res.append(r)
if root:
    json.dump(res, open(sys.argv[3], "w"))
