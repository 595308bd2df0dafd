"""Small helpers shared by the checks."""
from .core import Crash, Violation


def hx(s):
    if isinstance(s, str):
        s = s.encode()
    return "x" + s.hex()


def unhx(s):
    return bytes.fromhex(s[1:]).decode(errors="replace")


def ask(server, line, what=None, timeout=None):
    """Ask a server; a crash or a hang of the code under test is a violation."""
    try:
        return server.ask(line, timeout=timeout)
    except Crash as e:
        raise Violation("%s: %s" % (what or "harness process", e)) from None


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def num(x):
    """A float as an exact token for strtod."""
    return float(x).hex()
