"""C15: the command line parser returns exactly what was given, else the default."""
from hypothesis import strategies as st

from checks.common_lib import build_servers
from vlib.core import Result, Target
from vlib.util import ask, check, hx, num, unhx

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("Sets of 0-8 (sometimes up to 98) declared options of the four types (names that are prefixes of one another or "
        "differ in case), and command lines made of option occurrences with values of the right type "
        "(repeated, negative, exponents, blanks, bytes > 127), stray positional words, and in part an "
        "undeclared option. Oracle: a model of the documented rule (last value, else default; a "
        "switch flips at every occurrence). A case is non-trivial when a command line sets at "
        "least one option of at least two declared ones, or names an undeclared option.")
ASSUMPTIONS = [
    "option names start with '-' followed by a non-digit and are declared under one type only",
    "values do not start with '-' followed by a non-digit (the parser takes such words for option "
    "names, and refuses them)",
    "int values fit an int; a non-switch option is always followed by a value"]


def prepare(ctx):
    ctx.exe = build_servers(ctx, ["parser"])["parser"]


# few letters, so that prefixes and near-misses are common
NAME = st.one_of(
    st.text("nNsx-_5", min_size=1, max_size=4),
    st.sampled_from(["numCells", "numSteps", "num", "vtk", "std", "h2", "help", "v", "-long", "n.x"]),
    st.text(st.characters(blacklist_characters="\x00", blacklist_categories=("Cs",)), min_size=1,
            max_size=5),
).map(lambda s: "-" + s).filter(lambda s: not s[1].isdigit() and s != "-h")

DBL = st.one_of(st.floats(allow_nan=False, allow_infinity=False),
                st.floats(-1e3, 1e3), st.integers(-10**6, 10**6).map(float))


def dbl_text(draw, x):
    k = draw(st.integers(0, 3))
    if k == 0:
        s = repr(x)
    elif k == 1:
        s = "%.17e" % x
    elif k == 2:
        s = "%.6g" % x
    else:
        s = repr(x) if repr(x).startswith("-") else "+" + repr(x)
    if s.startswith("-") and not s[1].isdigit():
        s = repr(x)
    return s


def not_option(s):
    """What the parser takes for a value or a positional word."""
    b = s.encode()
    return not (len(b) >= 2 and b[0:1] == b"-" and not (48 <= b[1] <= 57))


WORD = st.one_of(st.sampled_from(["", "-", "-5", "-3.5e2", "vtk", "32", "10", "a=b", "--"[:1], "n",
                                  "numCells", " ", "x y"]),
                 st.text(st.characters(blacklist_characters="\x00", blacklist_categories=("Cs",)),
                         max_size=6)).filter(not_option)
HELP = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=12)


@st.composite
def case(draw):
    many = draw(st.integers(0, 79)) == 0
    names = draw(st.lists(NAME, max_size=8, unique=True))
    if many:
        names += ["-o%d" % k for k in range(draw(st.integers(20, 90)))]
    opts = []
    for n in names:
        t = draw(st.sampled_from("disb"))
        if t == "d":
            d = draw(DBL)
        elif t == "i":
            d = draw(st.integers(-2**31, 2**31 - 1))
        elif t == "s":
            d = draw(st.text(st.characters(blacklist_characters="\x00",
                                           blacklist_categories=("Cs",)), max_size=6))
        else:
            d = draw(st.booleans())
        opts.append([t, n, d, draw(HELP)])
    if opts and draw(st.integers(0, 9)) == 0:       # declared twice: the last declaration holds
        t, n, d, _ = draw(st.sampled_from(opts))
        opts.append([t, n, d, draw(HELP)])
    items = []
    decl = {n: t for t, n, _, _ in opts}
    decl["-h"] = "b"
    choices = sorted(decl)
    for _ in range(draw(st.integers(30, 150)) if many else draw(st.integers(0, 10))):
        k = draw(st.integers(0, 9))
        if k < 7 and opts:
            n = draw(st.sampled_from(choices))
            t = decl[n]
            if t == "b":
                items.append([n])
            elif t == "d":
                items.append([n, dbl_text(draw, draw(DBL))])
            elif t == "i":
                i = draw(st.one_of(st.integers(-2**31, 2**31 - 1), st.integers(-20, 20)))
                s = str(i)
                f = draw(st.integers(0, 5))
                if f == 0 and i >= 0:
                    s = "+" + s
                elif f == 1 and i >= 0:
                    s = "00" + s
                items.append([n, s])
            else:
                w = draw(WORD)
                if many and w != "-":
                    w += "long" * draw(st.sampled_from([20, 70, 1100]))
                items.append([n, w])
        else:
            items.append([draw(WORD)])
    bad = None
    if draw(st.integers(0, 7)) == 0:
        base = [n[:-1] for n in names if len(n) > 2] + [n + "x" for n in names] + \
               [n.swapcase() for n in names] + ["-H", "--", "--h", "-hh", "-unknown"]
        bad = draw(st.one_of(st.sampled_from(base), NAME))
        if bad in decl or not_option(bad):
            bad = "-undeclared-one"
        if bad in decl:
            bad = None
    if bad is not None:
        items.insert(draw(st.integers(0, len(items))), [bad])
    extra = draw(st.lists(NAME, max_size=2))
    return {"opts": opts, "items": items, "bad": bad, "extra": extra,
            "foot": draw(HELP), "purpose": draw(HELP)}


def run(env, c):
    srv = env.server("parser", [env.ctx.exe])
    line = [hx(c["purpose"]), hx(c["foot"]), str(len(c["opts"]))]
    model = {"-h": ("b", False)}
    helps = {}
    for t, n, d, h in c["opts"]:
        line += [t, hx(n)]
        line.append(num(d) if t == "d" else hx(d) if t == "s" else str(int(d)))
        line.append(hx(h))
        model[n] = (t, d)
        helps[n] = h
    words = [w for it in c["items"] for w in it]
    argv = ["/bin/prog"] + words
    line.append(str(len(argv)))
    line += [hx(a) for a in argv]
    cur = {n: v for n, (t, v) in model.items()}
    nset = 0
    for it in c["items"]:
        if it[0] in model and not_option(it[0]) is False:
            t = model[it[0]][0]
            nset += 1
            if t == "b":
                cur[it[0]] = not cur[it[0]]
            elif t == "d":
                cur[it[0]] = float(it[1])
            elif t == "i":
                cur[it[0]] = int(it[1])
            else:
                cur[it[0]] = it[1]
    names = sorted(set(cur) | set(c["extra"]) | {"undeclared", ""})
    qs = [(t, n) for n in names for t in "disb"]
    line.append(str(len(qs)))
    for t, n in qs:
        line += [t, hx(n)]
    got = ask(srv, " ".join(line), "parser")
    what = "options %s, command line %s" % ([o[:3] for o in c["opts"]], words)
    ok = got[0] == "1"
    check(ok == (c["bad"] is None), "%s: parse returned %s", what, ok)
    if c["bad"] is not None:
        return Result(True, ["undeclared option refused"])
    helptext = bytes.fromhex(got[2][1:]).decode(errors="replace")
    for n, h in helps.items():
        check(n in helptext and h in helptext, "%s: option %r (help %r) is missing in the help text "
              "%r", what, n, h, helptext[:500])
    check(c["purpose"] in helptext and c["foot"] in helptext and "-h" in helptext,
          "%s: purpose or footnote missing in the help text", what)
    labels = set()
    vals = got[3:]
    check(len(vals) == 2 * len(qs), "answers missing")
    for k, (t, n) in enumerate(qs):
        g, empty = vals[2 * k], vals[2 * k + 1]
        if n in model and model[n][0] == t:
            v = cur[n]
            if t == "d":
                good = float(g) == v
            elif t == "i":
                good = int(g) == v
            elif t == "b":
                good = g == str(int(v))
            else:
                good = bytes.fromhex(g[1:]) == v.encode()
            check(good, "%s: %s option %r: expected %r, got %s", what, t, n, v,
                  g if t != "s" else bytes.fromhex(g[1:]))
        elif n == "-h" and t == "b":
            pass
        else:
            check(g == empty, "%s: asking for the undeclared (%s, %r) gave %s, an empty parser gives "
                  "%s", what, t, n, g, empty)
    for it in c["items"]:
        labels.add("positional" if len(it) == 1 and not_option(it[0]) else
                   "option " + model[it[0]][0] if it[0] in model else "other")
    if len({it[0] for it in c["items"]}) < len(c["items"]):
        labels.add("repeated")
    return Result(nset >= 1 and len(model) >= 3, labels, len(qs) + 1)


def targets(ctx):
    return [Target("command-lines", case(), run, 24000, 600000)]
