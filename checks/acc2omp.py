"""OpenACC directives rewritten as OpenMP target directives, so that the loops of OpenACC sources (which gcc runs
one iteration after the other on the host) run with several teams and threads on harness/minigomp.cpp."""
import re


class Unknown(Exception):
    pass


MAPS = {"copy": "tofrom", "copyin": "to", "copyout": "from", "create": "alloc", "present": "alloc", "delete": "delete",
        "no_create": "alloc"}
for _k in ("copy", "copyin", "copyout", "create"):
    MAPS["p" + _k] = MAPS["present_or_" + _k] = MAPS[_k]
DROP = {"gang", "worker", "vector", "independent", "auto", "seq", "default", "num_workers", "finalize", "if_present"}
KEEP = {"private", "firstprivate", "reduction", "collapse"}


def clauses(text):
    """[(name, argument or None)]"""
    out = []
    i = 0
    while i < len(text):
        m = re.compile(r"[\s,]*").match(text, i)
        i = m.end()
        if i >= len(text):
            break
        m = re.compile(r"\w+").match(text, i)
        if not m:
            raise Unknown(text[i:])
        name, i = m.group(0).lower(), m.end()
        m = re.compile(r"\s*\(").match(text, i)
        arg = None
        if m:
            depth, j = 1, m.end()
            while j < len(text) and depth:
                depth += {"(": 1, ")": -1}.get(text[j], 0)
                j += 1
            if depth:
                raise Unknown(text)
            arg, i = text[m.end():j - 1], j
        out.append((name, arg))
    return out


def translate_clauses(cl, exits=False):
    out = []
    for name, arg in cl:
        if name in MAPS and arg is not None:
            k = MAPS[name]
            arg = re.sub(r"^\s*(readonly|zero)\s*:", "", arg)
            out.append("map(%s: %s)" % ("from" if exits and k == "from" else k, arg))
        elif name in KEEP and arg is not None:
            out.append("%s(%s)" % (name, arg))
        elif name == "num_gangs":
            out.append("num_teams(%s)" % arg)
        elif name == "vector_length":
            out.append("thread_limit(%s)" % arg)
        elif name == "if":
            out.append("if(%s)" % arg)
        elif name == "async":
            out.append("nowait")
        elif name in DROP:
            pass
        else:
            raise Unknown(name)
    return " ".join(out)


def directive(d, fortran):
    """The OpenMP directive for an OpenACC one (without sentinel); '' drops it."""
    loop = "do" if fortran else "for"
    t = re.sub(r"\s+", " ", d).strip()
    m = re.match(r"(?i)(end )?(parallel loop|kernels loop|parallel|kernels|serial loop|serial|loop|enter data|exit data|data|"
                 r"update|wait|routine)\b", t)
    if not m:
        raise Unknown(t)
    end, name, rest = bool(m.group(1)), m.group(2).lower(), clauses(t[m.end():]) if m.group(2).lower() != "wait" else []
    par = "target teams distribute parallel " + loop
    if end:
        return {"parallel loop": "end " + par, "kernels loop": "end " + par, "kernels": "end target", "data": "end target data",
                "loop": ""}.get(name) if name in ("parallel loop", "kernels loop", "kernels", "data", "loop") else _no(t)
    names = [k for k, _ in rest]
    if name in ("parallel loop", "kernels loop"):
        return par + " " + translate_clauses(rest)
    if name == "kernels" and fortran:
        return "target " + translate_clauses(rest)
    if name == "loop":
        if "seq" in names or ("independent" not in names and "gang" not in names):
            return ""
        return "teams distribute parallel %s %s" % (loop, translate_clauses(rest))
    if name == "data":
        return "target data " + translate_clauses(rest)
    if name == "enter data":
        return "target enter data " + translate_clauses(rest)
    if name == "exit data":
        return "target exit data " + translate_clauses(rest, True)
    if name == "update":
        out = []
        for k, a in rest:
            if k in ("self", "host"):
                out.append("from(%s)" % a)
            elif k == "device":
                out.append("to(%s)" % a)
            else:
                raise Unknown(k)
        return "target update " + " ".join(out)
    if name == "wait":
        return "taskwait"
    if name == "routine":
        return "declare target" if fortran else ""
    raise Unknown(t)


def shared(d, fortran):
    """The same for threads of the host: loops are shared among them, data are where they are."""
    o = directive(d, fortran)
    if not re.search(r"teams distribute parallel (do|for)\b", o):
        return ""
    o = o.replace("target ", "").replace("teams distribute ", "")
    if o.startswith("end"):
        return o
    return re.sub(r"\s+", " ", _drop(o, ("map", "num_teams", "thread_limit", "nowait")))


def _drop(o, names):
    head = re.match(r"parallel (do|for)", o).group(0)
    return head + " " + " ".join("%s(%s)" % c if c[1] is not None else c[0] for c in clauses(o[len(head):])
                                 if c[0] not in names)


def _no(t):
    raise Unknown(t)


def fortran(text, how=directive):
    """The text of a Fortran source without its OpenMP directives, and OpenACC's rewritten."""
    out = []
    lines = text.split("\n")
    i = 0
    n = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        if re.match(r"(?i)\s*!\$omp\b", l):
            out.append("")
            continue
        m = re.match(r"(?i)\s*!\$acc\b(.*)$", l)
        if not m:
            out.append(l)
            continue
        d = m.group(1).split("!")[0].rstrip()
        while d.endswith("&"):
            m = re.match(r"(?i)\s*!\$acc\b\s*&?(.*)$", lines[i])
            if not m:
                raise Unknown(lines[i])
            d = d[:-1] + " " + m.group(1).split("!")[0].rstrip()
            i += 1
        o = how(d, True)
        n += 1
        while len(o) > 100:
            k = o.rfind(" ", 0, 100)
            if k < 0:
                break
            out.append("!$omp " + o[:k] + " &")
            o = o[k + 1:]
        if o:
            out.append("!$omp " + o)
    return "\n".join(out), n


def cxx(text, how=directive):
    out = []
    lines = text.split("\n")
    i = 0
    n = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        m = re.match(r"\s*#\s*pragma\s+(omp|acc)\b(.*)$", l)
        if not m:
            out.append(l)
            continue
        d = m.group(2).rstrip()
        while d.endswith("\\") and i < len(lines):
            d = d[:-1] + " " + lines[i].rstrip()
            i += 1
        if m.group(1) == "omp":
            continue
        d = re.sub(r"/\*.*?\*/", " ", d).split("//")[0]
        o = how(d, False)
        n += 1
        if o:
            out.append("#pragma omp " + o)
    return "\n".join(out), n
