"""Server over the Upwind class of the compiled Cython extension: argv[1] is the directory it was built in."""
import contextlib
import io
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
out = os.fdopen(os.dup(1), "w")
sys.stdout = sys.stderr
import numpy
import upwind5


def field(u):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        u.printOut()
    rows = [r.split() for r in s.getvalue().splitlines() if r.strip()]
    return [r[0] for r in rows], [r[-1] for r in rows]


TYPES = [numpy.float64, numpy.float64, numpy.int64]
for line in sys.stdin:
    S, A = {}, {}
    res = []
    for op in json.loads(line):
        k = op[1]
        if op[0] == "new":
            # solvers of the same problem are given the same arrays, which must stay as they are
            a = [A.setdefault(str(x), (numpy.array(x, t), x)) for x, t in zip(op[2:5], TYPES)]
            S[k] = upwind5.Upwind(*[x[0] for x in a])
        elif op[0] == "adv":
            for _ in range(op[2]):
                S[k].advect(op[3])
        elif op[0] == "f":
            res.append(["f", k, *field(S[k])])
        elif op[0] == "sum":
            res.append(["sum", k, float(S[k].checksum())])
        elif op[0] == "vtk":
            S[k].saveVTK(op[2])
            res.append(["vtk", k])
        elif op[0] == "del":
            del S[k]
    for a, x in A.values():
        if a.tolist() != x:
            res.append(["changed", x, a.tolist()])
    out.write(json.dumps(res) + "\n=END\n")
    out.flush()
