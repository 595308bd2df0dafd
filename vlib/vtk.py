"""A strict reader of legacy ASCII VTK files (the subset the suite writes)."""
import re

NUM = re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\Z")
INT = re.compile(r"[+-]?\d+\Z")


class Bad(Exception):
    """The file is not well formed."""


class Tok:
    def __init__(self, text):
        self.t = text.split()
        self.i = 0

    def word(self, what):
        if self.i >= len(self.t):
            raise Bad("file ends where %s is expected" % what)
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, w):
        g = self.word(w)
        if g.upper() != w:
            raise Bad("expected %s, found %r" % (w, g))

    def int(self, what):
        w = self.word(what)
        if not INT.match(w):
            raise Bad("%s: %r is not an integer" % (what, w))
        return int(w)

    def num(self, what):
        w = self.word(what)
        if not NUM.match(w):
            raise Bad("%s: %r is not a number" % (what, w))
        return float(w)

    def nums(self, n, what):
        out = []
        for k in range(n):
            out.append(self.num("%s %d of %d" % (what, k, n)))
        return out

    def end(self):
        if self.i != len(self.t):
            raise Bad("unexpected %r after the end of the data" % self.t[self.i])


TYPES = {"float", "double"}


def read(path):
    """{'kind', 'dims', 'points' or 'x','y','z', 'name', 'cells'}"""
    with open(path, errors="replace") as f:
        text = f.read()
    lines = text.split("\n", 4)
    if len(lines) < 5:
        raise Bad("file has only %d lines" % len(lines))
    if not re.match(r"# vtk DataFile Version \d+\.\d+\s*\Z", lines[0]):
        raise Bad("first line is %r" % lines[0])
    if len(lines[1]) > 256:
        raise Bad("title too long")
    if lines[2].strip() != "ASCII":
        raise Bad("third line is %r" % lines[2])
    m = re.match(r"DATASET\s+(\w+)\s*\Z", lines[3])
    if not m:
        raise Bad("fourth line is %r" % lines[3])
    kind = m.group(1)
    t = Tok(lines[4])
    r = {"kind": kind, "title": lines[1]}
    t.expect("DIMENSIONS")
    d = [t.int("DIMENSIONS") for _ in range(3)]
    if min(d) < 1:
        raise Bad("dimensions %s" % d)
    r["dims"] = d
    if kind == "STRUCTURED_GRID":
        t.expect("POINTS")
        n = t.int("number of points")
        if n != d[0] * d[1] * d[2]:
            raise Bad("%d points for dimensions %s" % (n, d))
        if t.word("type") not in TYPES:
            raise Bad("bad type")
        v = t.nums(3 * n, "coordinate")
        r["points"] = [tuple(v[3 * i:3 * i + 3]) for i in range(n)]
    elif kind == "RECTILINEAR_GRID":
        for ax, name in enumerate("XYZ"):
            t.expect(name + "_COORDINATES")
            n = t.int("number of coordinates")
            if n != d[ax]:
                raise Bad("%s_COORDINATES has %d entries, DIMENSIONS says %d" % (name, n, d[ax]))
            if t.word("type") not in TYPES:
                raise Bad("bad type")
            r[name.lower()] = t.nums(n, name + " coordinate")
    else:
        raise Bad("dataset kind " + kind)
    t.expect("CELL_DATA")
    n = t.int("number of cells")
    ncell = 1
    for k in d:
        ncell *= max(k - 1, 1)
    if n != ncell:
        raise Bad("CELL_DATA %d for dimensions %s (%d cells)" % (n, d, ncell))
    t.expect("SCALARS")
    r["name"] = t.word("name")
    if t.word("type") not in TYPES:
        raise Bad("bad type")
    w = t.word("LOOKUP_TABLE")
    if w == "1":
        w = t.word("LOOKUP_TABLE")
    if w != "LOOKUP_TABLE":
        raise Bad("expected LOOKUP_TABLE, found %r" % w)
    t.word("table name")
    r["cells"] = t.nums(n, "cell value")
    t.end()
    return r
