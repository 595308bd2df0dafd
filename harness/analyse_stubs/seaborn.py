"""A stand-in: records the bars that are asked for."""
import json
import os
from unittest.mock import MagicMock


def barplot(*a, **k):
    data = k.get("data", a[0] if a else None)
    try:
        rec = [list(data[k[x]]) if isinstance(k[x], str) else list(k[x]) for x in ("x", "y", "hue")]
    except (KeyError, TypeError):
        return MagicMock()
    with open(os.environ["BARS"], "a") as f:
        f.write(json.dumps(rec) + "\n")
    return MagicMock()


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return MagicMock()
