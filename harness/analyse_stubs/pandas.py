"""A stand-in for the part of pandas the analysis script may use: a table written as CSV."""
import csv
import os
import sys


def unsupported(what):
    sys.stderr.write("UNSUPPORTED: %s\n" % what)
    sys.stderr.flush()
    os._exit(77)


class Series(list):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("Series." + name)


class Meta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("DataFrame." + name)


class DataFrame(metaclass=Meta):
    def __init__(self, data=None, columns=None, **kw):
        if kw:
            unsupported("DataFrame(%s)" % sorted(kw))
        data = {} if data is None else data
        if isinstance(data, dict):
            cols = {k: list(v) for k, v in data.items()}
            if columns is not None:
                cols = {k: cols.get(k, []) for k in columns}
        else:
            rows = list(data)
            if rows and isinstance(rows[0], dict):
                names = list(columns) if columns is not None else list(dict.fromkeys(k for r in rows for k in r))
                cols = {k: [r.get(k, "") for r in rows] for k in names}
            elif columns is not None:
                cols = {k: [r[i] for r in rows] for i, k in enumerate(columns)}
            elif not rows:
                cols = {}
            else:
                unsupported("DataFrame of " + repr(type(rows[0])))
        if len({len(v) for v in cols.values()}) > 1:
            raise ValueError("All arrays must be of the same length")
        self.__dict__["cols"] = cols

    @classmethod
    def from_records(cls, data, columns=None, **kw):
        return cls(data, columns, **kw)

    @classmethod
    def from_dict(cls, data, **kw):
        return cls(data, **kw)

    @property
    def columns(self):
        return list(self.cols)

    def __len__(self):
        return max([len(v) for v in self.cols.values()] or [0])

    @property
    def empty(self):
        return len(self) == 0

    def __getitem__(self, k):
        if not isinstance(k, str):
            unsupported("DataFrame[%r]" % (k,))
        return Series(self.cols[k])

    def __setitem__(self, k, v):
        v = list(v) if isinstance(v, (list, tuple)) else [v] * len(self)
        if self.cols and len(v) != len(self):
            raise ValueError("Length of values does not match length of index")
        self.cols[k] = v

    def to_csv(self, path, index=True, **kw):
        if kw:
            unsupported("to_csv(%s)" % sorted(kw))
        with open(path, "w", newline="") as f:
            w = csv.writer(f, lineterminator="\n")
            w.writerow(([""] if index else []) + list(self.cols))
            for i in range(len(self)):
                w.writerow(([i] if index else []) + [v[i] for v in self.cols.values()])

    def __repr__(self):
        return "DataFrame(%r)" % self.cols

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self.__dict__.get("cols", {}):
            return self[name]
        unsupported("DataFrame." + name)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    unsupported("pandas." + name)
