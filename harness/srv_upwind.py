"""Server over the Upwind class of the serial Python program: argv[1] is its directory."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
out = os.fdopen(os.dup(1), "w")
sys.stdout = sys.stderr
import numpy
import upwind

for line in sys.stdin:
    S, A = {}, {}
    res = []
    for op in json.loads(line):
        k = op[1]
        if op[0] == "new":
            # solvers of the same problem are given the same arrays, which must stay as they are
            a = [A.setdefault(repr(x), (numpy.array(x, numpy.float64), x)) for x in op[2:4]]
            n = A.setdefault(repr(op[4]), (list(op[4]), op[4]))
            S[k] = upwind.Upwind(a[0][0], a[1][0], n[0])
        elif op[0] == "adv":
            for _ in range(op[2]):
                S[k].advect(op[3])
        elif op[0] == "f":
            res.append(["f", k, [float(x) for x in numpy.array(S[k].f).reshape(-1)]])
        elif op[0] == "sum":
            res.append(["sum", k, float(S[k].checksum())])
        elif op[0] == "std":
            res.append(["std", k, None])
        elif op[0] == "vtk":
            S[k].saveVTK(op[2])
            res.append(["vtk", k])
        elif op[0] == "del":
            del S[k]
    for a, x in A.values():
        if list(a) != x:
            raise SystemExit("an array of the caller, %s, is changed to %s" % (x, list(a)))
    out.write(json.dumps(res) + "\n=END\n")
    out.flush()
