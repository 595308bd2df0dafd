"""A stand-in: takes every call."""
import sys
from unittest.mock import MagicMock

for _n in ("pylab", "pyplot"):
    sys.modules["matplotlib." + _n] = MagicMock()
    sys.modules["matplotlib." + _n].subplots.return_value = (MagicMock(), MagicMock())
    globals()[_n] = sys.modules["matplotlib." + _n]


def use(*a, **k):
    pass


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return MagicMock()
