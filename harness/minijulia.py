"""An interpreter of a subset of Julia 1.x: enough for the Julia programs of the repository, and for rewritings of them.

JuliaError: what Julia would raise (undefined name, no method, inexact conversion, index out of bounds, ...).
Unsupported: something the interpreter does not know; nothing is said about the program then.
"""
import math
import os
import re

import numpy as np


class JuliaError(Exception):
    pass


class Unsupported(Exception):
    pass


class Exit(Exception):
    def __init__(self, code):
        super().__init__(code)
        self.code = code


# --- lexer --------------------------------------------------------------------------------------------

KEYWORDS = {"function", "end", "if", "elseif", "else", "for", "while", "return", "struct", "mutable", "using", "import",
            "include_", "global", "local", "const", "break", "continue", "begin", "let", "do", "module", "baremodule", "macro",
            "quote", "try", "catch", "finally", "abstract", "primitive", "export"}
OPS = ["===", "!==", "...", ">>>", "&&", "||", "::", "==", "!=", "<=", ">=", "->", "=>", "+=", "-=", "*=", "/=", "^=", "%=",
       "÷=", "<:", ">:", "|>", "<<", ">>", "//", "+", "-", "*", "/", "^", "%", "÷", "<", ">", "=", "!", "(", ")", "[", "]", "{",
       "}", ",", ";", ":", ".", "?", "&", "|", "~", "'", "\\", "@", "≤", "≥", "≠", "∈", "$"]
DOTTABLE = ["===", "!==", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "^=", "%=", "÷=", "+", "-", "*", "/", "^", "%", "÷",
            "<", ">", "=", "&&", "||", "!", "&", "|", "≤", "≥", "≠"]
IDENT = re.compile(r"[^\W\d]\w*(?:!+(?!=))?", re.U)
NUMBER = re.compile(r"0x[0-9a-fA-F]+|(?:\d[\d_]*\.(?![.a-zA-Z*/+\-^=<>])\d*|\.\d+|\d[\d_]*)(?:[eEf][-+]?\d+)?")


class Tok:
    __slots__ = ("k", "v", "sp", "line")

    def __init__(self, k, v, sp, line):
        self.k, self.v, self.sp, self.line = k, v, sp, line

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


def lex(s):
    out, i, line = [], 0, 1
    n = len(s)
    depth = []
    while True:
        sp = False
        while i < n:
            if s[i] in " \t\r":
                i += 1
                sp = True
            elif s.startswith("#=", i):
                lev, j = 1, i + 2
                while lev and j < n:
                    if s.startswith("#=", j):
                        lev, j = lev + 1, j + 2
                    elif s.startswith("=#", j):
                        lev, j = lev - 1, j + 2
                    else:
                        line += s[j] == "\n"
                        j += 1
                i = j
                sp = True
            elif s[i] == "#":
                while i < n and s[i] != "\n":
                    i += 1
            else:
                break
        if i >= n:
            out.append(Tok("eof", "", sp, line))
            return out
        c = s[i]
        if c == "\n":
            if not (depth and depth[-1] in "(["):
                out.append(Tok("nl", "\n", sp, line))
            elif depth[-1] == "[":
                out.append(Tok("anl", "\n", sp, line))
            line += 1
            i += 1
            continue
        prev = out[-1] if out else None
        if c == '"':
            q = '"""' if s.startswith('"""', i) else '"'
            j = i + len(q)
            parts, buf = [], ""
            while True:
                if j >= n:
                    raise Unsupported("unterminated string")
                if s.startswith(q, j):
                    break
                if s[j] == "\\":
                    e = s[j + 1]
                    m = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", '"': '"', "$": "$", "0": "\0", "'": "'", "a": "\a"}
                    if e not in m:
                        raise Unsupported("escape \\%s" % e)
                    buf += m[e]
                    j += 2
                elif s[j] == "$":
                    if q == '"""':
                        buf += "$"
                        j += 1
                        continue
                    if s[j + 1] == "(":
                        k, d = j + 2, 1
                        while d:
                            d += {"(": 1, ")": -1}.get(s[k], 0)
                            k += 1
                        parts.append(buf)
                        parts.append(parse_expr_text(s[j + 2:k - 1]))
                        buf, j = "", k
                    else:
                        m = re.compile(r"[^\W\d]\w*", re.U).match(s, j + 1)
                        if not m:
                            raise Unsupported("interpolation")
                        parts.append(buf)
                        parts.append(("var", m.group(0)))
                        buf, j = "", m.end()
                else:
                    line += s[j] == "\n"
                    buf += s[j]
                    j += 1
            parts.append(buf)
            out.append(Tok("str", parts, sp, line))
            i = j + len(q)
            continue
        if c == "'" and not (prev and not sp and (prev.k in ("id", "num") or prev.v in (")", "]", "'"))):
            m = re.compile(r"'(\\?.)'", re.S).match(s, i)
            if not m:
                raise Unsupported("character")
            out.append(Tok("chr", {"\\n": "\n", "\\t": "\t"}.get(m.group(1), m.group(1)), sp, line))
            i = m.end()
            continue
        m = NUMBER.match(s, i)
        if m and (c.isdigit() or (c == "." and i + 1 < n and s[i + 1].isdigit())):
            out.append(Tok("num", m.group(0), sp, line))
            i = m.end()
            continue
        m = IDENT.match(s, i)
        if m:
            v = m.group(0)
            out.append(Tok("kw" if v in KEYWORDS and not (prev and prev.v == "." and not sp) else "id", v, sp, line))
            if v in ("end", "begin") and depth and depth[-1] == "[":
                out[-1].k = "id"
            i = m.end()
            continue
        if c == "." and i + 1 < n:
            for o in DOTTABLE:
                if s.startswith(o, i + 1):
                    out.append(Tok("op", "." + o, sp, line))
                    i += 1 + len(o)
                    break
            else:
                o = "..." if s.startswith("...", i) else "."
                out.append(Tok("op", o, sp, line))
                i += len(o)
            continue
        for o in OPS:
            if s.startswith(o, i):
                if o in "([{":
                    depth.append(o)
                elif o in ")]}":
                    if depth:
                        depth.pop()
                out.append(Tok("op", o, sp, line))
                i += len(o)
                break
        else:
            raise Unsupported("character %r" % c)


# --- parser -------------------------------------------------------------------------------------------

COMPARE = {"==", "!=", "<", ">", "<=", ">=", "===", "!==", "≤", "≥", "≠", "<:", ".==", ".!=", ".<", ".>", ".<=", ".>=", ".≤",
           ".≥", ".≠", "∈"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "^=", "%=", "÷=", ".=", ".+=", ".-=", ".*=", "./=", ".^=", ".%=", ".÷="}


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0
        self.noend = 0

    @property
    def cur(self):
        return self.t[self.i]

    def bad(self, what="syntax"):
        raise Unsupported("%s near line %d (%r)" % (what, self.cur.line, self.cur.v))

    def at(self, *vs):
        return self.cur.k in ("op", "kw") and self.cur.v in vs

    def eat(self, v):
        if not self.at(v):
            self.bad("expected %s" % v)
        self.i += 1

    def skip(self, semis=True):
        while self.cur.k in ("nl", "anl") or (semis and self.at(";")):
            self.i += 1

    def skipnl(self):
        while self.cur.k in ("nl", "anl"):
            self.i += 1

    def block(self, *ends):
        out = []
        self.skip()
        while not self.at(*ends):
            if self.cur.k == "eof":
                self.bad("unfinished block")
            out.append(self.statement())
            if self.cur.k != "eof" and not self.at(*ends):
                if not (self.cur.k == "nl" or self.at(";")):
                    self.bad()
            self.skip()
        return ("block", out)

    def program(self):
        out = []
        self.skip()
        while self.cur.k != "eof":
            out.append(self.statement())
            if not (self.cur.k in ("nl", "eof") or self.at(";")):
                self.bad()
            self.skip()
        return ("block", out)

    def statement(self):
        e = self.expr()
        if self.at(",") and e[0] in ("var", "field", "index"):
            items = [e]
            while self.at(","):
                self.i += 1
                items.append(self.ternary())
            if not self.at("="):
                self.bad("tuple")
            self.i += 1
            self.skipnl()
            rhs = self.expr()
            if self.at(","):
                r = [rhs]
                while self.at(","):
                    self.i += 1
                    r.append(self.ternary())
                rhs = ("tuple", r)
            return ("assign", "=", ("tuple", items), rhs)
        return e

    def expr(self):
        e = self.ternary()
        if self.cur.k == "op" and self.cur.v in ASSIGN:
            op = self.cur.v
            self.i += 1
            self.skipnl()
            rhs = self.expr()
            if op == "=" and e[0] == "call" and e[1][0] in ("var",):
                return ("function", e[1][1], self.params(e[2], e[3]), ("block", [rhs]), None)
            return ("assign", op, e, rhs)
        return e

    def ternary(self):
        c = self.arrow()
        if self.at("?") and self.cur.sp:
            self.i += 1
            self.skipnl()
            old, self.nocolon = self.nocolon, 1
            try:
                a = self.ternary()
            finally:
                self.nocolon = old
            self.skipnl()
            self.eat(":")
            self.skipnl()
            return ("if", [(c, a)], self.ternary())
        return c

    def arrow(self):
        l = self.oror()
        if self.at("->"):
            self.i += 1
            b = self.expr()
            ps = l[1] if l[0] == "tuple" else [l]
            return ("lambda", self.params(ps, []), b)
        if self.at("=>"):
            self.bad("pair")
        return l

    def oror(self):
        l = self.andand()
        while self.at("||"):
            self.i += 1
            self.skipnl()
            l = ("or", l, self.control(self.andand))
        return l

    def andand(self):
        l = self.comparison()
        while self.at("&&"):
            self.i += 1
            self.skipnl()
            l = ("and", l, self.control(self.comparison))
        return l

    def control(self, f):
        return f()

    def comparison(self):
        l = self.pipe()
        ops, terms = [], [l]
        while (self.cur.k == "op" and self.cur.v in COMPARE) or (self.cur.k == "id" and self.cur.v in ("in", "isa") and not self.noin):
            ops.append(self.cur.v)
            self.i += 1
            self.skipnl()
            terms.append(self.pipe())
        if not ops:
            return l
        return ("compare", ops, terms)

    noin = 0

    def pipe(self):
        l = self.range()
        while self.at("|>"):
            self.i += 1
            l = ("call", self.range(), [l], [], False)
        return l

    def range(self):
        l = self.additive()
        if self.at(":") and not self.nocolon and not (self.cur.sp and not self.t[self.i + 1].sp and False):
            if self.t[self.i + 1].v in (")", "]", ","):
                return l
            self.i += 1
            m = self.additive()
            if self.at(":"):
                self.i += 1
                return ("range", l, m, self.additive())
            return ("range", l, None, m)
        return l

    nocolon = 0

    def binary(self, sub, ops):
        l = sub()
        while self.cur.k == "op" and self.cur.v in ops:
            if self.inarr and self.cur.sp and not self.t[self.i + 1].sp and self.cur.v in ("+", "-"):
                break
            op = self.cur.v
            self.i += 1
            self.skipnl()
            l = ("bin", op, l, sub())
        return l

    inarr = 0

    def additive(self):
        return self.binary(self.mult, ("+", "-", ".+", ".-", "|"))

    def mult(self):
        return self.binary(self.unary, ("*", "/", "%", "÷", ".*", "./", ".%", ".÷", "&", "\\"))

    def unary(self):
        if self.cur.k == "op" and self.cur.v in ("+", "-", "!", "~", ".!", ".-", ".+"):
            op = self.cur.v
            nxt = self.t[self.i + 1]
            if nxt.v == "(" and not nxt.sp and op in ("+", "-", "*") and False:
                pass
            self.i += 1
            return ("un", op, self.unary())
        return self.power()

    def power(self):
        l = self.coeff()
        if self.cur.k == "op" and self.cur.v in ("^", ".^"):
            op = self.cur.v
            self.i += 1
            return ("bin", op, l, self.unary())
        return l

    def coeff(self):
        if self.cur.k == "num":
            nxt = self.t[self.i + 1]
            if not nxt.sp and (nxt.k == "id" or nxt.v == "("):
                v = self.number()
                return ("bin", "*", v, self.postfix())
        return self.postfix()

    def number(self):
        v = self.cur.v.replace("_", "")
        self.i += 1
        if v.startswith("0x"):
            raise Unsupported("hexadecimal")
        if "f" in v:
            raise Unsupported("Float32")
        if any(ch in v for ch in ".eE"):
            return ("lit", float(v))
        return ("lit", int(v))

    def args(self, close):
        """Up to the closing bracket: (positional, keywords)."""
        pos, kw = [], []
        sv = self.nocolon, self.noin, self.inarr
        self.nocolon = self.noin = self.inarr = 0
        self.skipnl()
        semi = False
        while not self.at(close):
            if self.at(";"):
                self.i += 1
                semi = True
                self.skipnl()
                continue
            if self.at(":") and self.t[self.i + 1].v in (",", close):
                self.i += 1
                pos.append(("colon",))
            else:
                e = self.ternary()
                if self.at("="):
                    self.i += 1
                    self.skipnl()
                    kw.append((e, self.ternary()))
                elif self.at("..."):
                    self.i += 1
                    pos.append(("splat", e))
                elif self.cur.v == "for" and self.cur.k == "kw":
                    pos.append(self.comprehension(e, close))
                elif semi:
                    kw.append((e, None))
                else:
                    pos.append(e)
            self.skipnl()
            if not self.at(close):
                if not self.at(",", ";"):
                    self.bad()
                if self.at(","):
                    self.i += 1
                    self.skipnl()
        self.eat(close)
        self.nocolon, self.noin, self.inarr = sv
        return pos, kw

    def comprehension(self, e, close):
        its = []
        cond = None
        while self.cur.v == "for" and self.cur.k == "kw":
            self.i += 1
            its += self.iterators()
            self.skipnl()
        if self.cur.v == "if" and self.cur.k == "kw":
            self.i += 1
            cond = self.ternary()
        return ("compr", e, its, cond)

    def iterators(self):
        its = []
        while True:
            if self.at("("):
                self.i += 1
                p, _ = self.args(")")
                v = ("tuple", p)
            else:
                if self.cur.k != "id":
                    self.bad()
                v = ("var", self.cur.v)
                self.i += 1
            if not (self.at("=", "∈") or (self.cur.k == "id" and self.cur.v == "in")):
                self.bad()
            self.i += 1
            its.append((v, self.ternary()))
            if self.at(","):
                self.i += 1
                self.skipnl()
                continue
            return its

    def postfix(self):
        e = self.atom()
        while True:
            c = self.cur
            if c.k == "op" and not c.sp:
                if c.v == "(":
                    self.i += 1
                    p, k = self.args(")")
                    e = ("call", e, p, k, False)
                    if self.cur.k == "kw" and self.cur.v == "do":
                        self.i += 1
                        ps = []
                        while self.cur.k != "nl":
                            ps.append(self.ternary())
                            if self.at(","):
                                self.i += 1
                        b = self.block("end")
                        self.eat("end")
                        e = ("call", e[1], [("lambda", self.params(ps, []), b)] + p, k, False)
                    continue
                if c.v == "[":
                    self.i += 1
                    p, k = self.args("]")
                    e = ("index", e, p)
                    continue
                if c.v == "{":
                    self.i += 1
                    p, k = self.args("}")
                    e = ("curly", e, p)
                    continue
                if c.v == ".":
                    n = self.t[self.i + 1]
                    if n.v == "(" and not n.sp:
                        self.i += 2
                        p, k = self.args(")")
                        e = ("call", e, p, k, True)
                        continue
                    if n.k in ("id", "kw"):
                        self.i += 2
                        e = ("field", e, n.v)
                        continue
                    self.bad()
                if c.v == "'":
                    self.i += 1
                    e = ("adjoint", e)
                    continue
            if c.k == "op" and c.v == "::":
                self.i += 1
                ty = self.postfix_type()
                e = ("typed", e, ty)
                continue
            return e

    def postfix_type(self):
        if self.cur.k != "id":
            self.bad("type")
        e = ("var", self.cur.v)
        self.i += 1
        while self.at(".") or (self.at("{") and not self.cur.sp):
            if self.at("{"):
                self.i += 1
                p, _ = self.args("}")
                e = ("curly", e, p)
            else:
                self.i += 1
                e = ("field", e, self.cur.v)
                self.i += 1
        return e

    def params(self, pos, kw):
        """Parameters: [(name, type, default)], keyword ones last with kind."""
        out = []
        for p, kind, d in [(p, "pos", None) for p in pos] + [(k, "opt", v) for k, v in kw]:
            if p[0] == "splat":
                p, kind = p[1], "rest"
            if p[0] == "typed":
                if p[1][0] != "var":
                    self.bad("parameter")
                out.append((p[1][1], p[2], kind, d))
            elif p[0] == "var":
                out.append((p[1], None, kind, d))
            else:
                self.bad("parameter")
        return out

    def atom(self):
        c = self.cur
        if c.k == "num":
            return self.number()
        if c.k == "str":
            self.i += 1
            return ("str", c.v)
        if c.k == "chr":
            self.i += 1
            return ("lit", Char(c.v))
        if c.k == "id":
            self.i += 1
            return ("var", c.v)
        if c.k == "op":
            if c.v == "(":
                self.i += 1
                sv = self.nocolon, self.noin, self.inarr
                self.nocolon = self.noin = self.inarr = 0
                self.skipnl()
                if self.at(")"):
                    self.i += 1
                    self.nocolon, self.noin, self.inarr = sv
                    return ("tuple", [])
                if self.cur.k == "op" and self.t[self.i + 1].v == ")" and self.cur.v in ("+", "-", "*", "/", "^", "%"):
                    o = self.cur.v
                    self.i += 2
                    self.nocolon, self.noin, self.inarr = sv
                    return ("var", o)
                e = self.expr()
                if self.cur.v == "for" and self.cur.k == "kw":
                    e = self.comprehension(e, ")")
                    self.eat(")")
                    self.nocolon, self.noin, self.inarr = sv
                    return e
                self.skipnl()
                if self.at(",") or self.at("..."):
                    items = [e]
                    if self.at("..."):
                        self.bad("splat")
                    while self.at(","):
                        self.i += 1
                        self.skipnl()
                        if self.at(")"):
                            break
                        items.append(self.expr())
                        self.skipnl()
                    e = ("tuple", items)
                elif self.at(";"):
                    items = [e]
                    while self.at(";"):
                        self.i += 1
                        self.skipnl()
                        items.append(self.expr())
                    e = ("block", items)
                self.eat(")")
                self.nocolon, self.noin, self.inarr = sv
                return e
            if c.v == "[":
                return self.array()
            if c.v == "@":
                return self.macro()
            if c.v in ("*", "+", "-", "/") and self.t[self.i + 1].v == "(" and not self.t[self.i + 1].sp:
                self.i += 1
                return ("var", c.v)
            if c.v == ":":
                if self.t[self.i + 1].k == "id" and not self.t[self.i + 1].sp:
                    self.i += 2
                    return ("lit", Symbol(self.t[self.i - 1].v))
                self.bad()
        if c.k == "kw":
            return self.keyword()
        self.bad()

    def array(self):
        self.i += 1
        sv = self.nocolon, self.noin, self.inarr
        self.nocolon = self.noin = 0
        self.inarr = 1
        rows, row = [], []
        sep = ""
        self.skipnl()
        while not self.at("]"):
            e = self.ternary()
            if self.cur.v == "for" and self.cur.k == "kw":
                e = self.comprehension(e, "]")
                self.skipnl()
                self.eat("]")
                self.nocolon, self.noin, self.inarr = sv
                return ("comprarr", e)
            row.append(e)
            if self.at(","):
                sep = sep or ","
                self.i += 1
                self.skipnl()
            elif self.at(";"):
                sep = ";"
                self.i += 1
                self.skipnl()
                rows.append(row)
                row = []
            elif self.cur.k == "anl":
                self.skipnl()
                if not self.at("]"):
                    if sep == ",":
                        self.bad("array")
                    sep = ";"
                    rows.append(row)
                    row = []
            elif not self.at("]"):
                if sep == ",":
                    self.bad("array")
                sep = sep or " "
        self.i += 1
        self.nocolon, self.noin, self.inarr = sv
        if sep in ("", ","):
            return ("vect", row)
        rows.append(row)
        if sep == ";" and all(len(r) == 1 for r in rows if r):
            return ("vcat", [r[0] for r in rows if r])
        return ("mat", [r for r in rows if r])

    def macro(self):
        self.i += 1
        name = self.cur.v
        self.i += 1
        if name in ("inbounds", "simd", "views", "time", "fastmath", "inline", "noinline"):
            if self.at("(") and not self.cur.sp:
                pass
            return self.statement()
        if name in ("sprintf", "printf", "assert"):
            if self.at("(") and not self.cur.sp:
                self.i += 1
                p, _ = self.args(")")
            else:
                p = [self.expr()]
                while not (self.cur.k in ("nl", "eof") or self.at(")", ";", "]")):
                    if self.at(","):
                        self.i += 1
                    p.append(self.expr())
            return ("macro", name, p)
        self.bad("macro @" + name)

    def keyword(self):
        v = self.cur.v
        sv = self.nocolon, self.noin, self.inarr
        self.nocolon = self.noin = self.inarr = 0
        self.i += 1
        try:
            return getattr(self, "kw_" + v, self.bad)()
        finally:
            self.nocolon, self.noin, self.inarr = sv

    def kw_function(self):
        if self.at("("):
            self.i += 1
            p, k = self.args(")")
            b = self.block("end")
            self.eat("end")
            return ("lambda", self.params(p, k), b)
        if self.cur.k != "id":
            self.bad()
        name = self.cur.v
        self.i += 1
        if self.at("."):
            self.bad("extending a module's function")
        if self.at("{"):
            self.bad("parametric function")
        if not self.at("("):
            self.eat("end")
            return ("lit", None)
        self.i += 1
        p, k = self.args(")")
        rt = None
        if self.at("::"):
            self.i += 1
            rt = self.postfix_type()
        if self.cur.v == "where":
            self.bad("where")
        b = self.block("end")
        self.eat("end")
        return ("function", name, self.params(p, k), b, rt)

    def kw_if(self):
        br = []
        c = self.expr()
        b = self.block("elseif", "else", "end")
        br.append((c, b))
        els = None
        while self.at("elseif"):
            self.i += 1
            c = self.expr()
            br.append((c, self.block("elseif", "else", "end")))
        if self.at("else"):
            self.i += 1
            els = self.block("end")
        self.eat("end")
        return ("if", br, els)

    def kw_for(self):
        its = self.iterators()
        b = self.block("end")
        self.eat("end")
        return ("for", its, b)

    def kw_while(self):
        c = self.expr()
        b = self.block("end")
        self.eat("end")
        return ("while", c, b)

    def kw_begin(self):
        b = self.block("end")
        self.eat("end")
        return b

    def kw_let(self):
        if self.cur.k != "nl":
            self.bad("let with variables")
        b = self.block("end")
        self.eat("end")
        return ("let", b)

    def kw_return(self):
        if self.cur.k in ("nl", "eof") or self.at(";", ")", "end"):
            return ("return", ("lit", None))
        e = self.expr()
        if self.at(","):
            r = [e]
            while self.at(","):
                self.i += 1
                self.skipnl()
                r.append(self.ternary())
            e = ("tuple", r)
        return ("return", e)

    def kw_break(self):
        return ("break",)

    def kw_continue(self):
        return ("continue",)

    def kw_global(self):
        return ("global", self.statement())

    def kw_local(self):
        return ("local", self.statement())

    def kw_const(self):
        return self.statement()

    def kw_mutable(self):
        self.eat("struct")
        return self.struct(True)

    def kw_struct(self):
        return self.struct(False)

    def struct(self, mutable):
        name = self.cur.v
        if self.cur.k != "id":
            self.bad()
        self.i += 1
        if self.at("{", "<:"):
            self.bad("parametric struct")
        fields, ctors = [], []
        for s in self.block("end")[1]:
            if s[0] == "typed" and s[1][0] == "var":
                fields.append((s[1][1], s[2]))
            elif s[0] == "var":
                fields.append((s[1], None))
            elif s[0] == "function":
                ctors.append(s)
            elif s[0] == "str":
                pass
            else:
                self.bad("struct")
        self.eat("end")
        return ("struct", name, mutable, fields, ctors)

    def kw_using(self):
        names = []
        while self.cur.k not in ("nl", "eof") and not self.at(";"):
            names.append(self.cur.v)
            self.i += 1
        return ("using", "".join(names))

    kw_import = kw_using

    def kw_module(self):
        name = self.cur.v
        self.i += 1
        b = self.block("end")
        self.eat("end")
        return ("module", name, b)

    def kw_export(self):
        while self.cur.k not in ("nl", "eof") and not self.at(";"):
            self.i += 1
        return ("lit", None)


def parse_expr_text(s):
    p = Parser(lex(s))
    e = p.expr()
    if p.cur.k != "eof":
        raise Unsupported("interpolation")
    return e


def parse(text):
    return Parser(lex(text)).program()


# --- values -------------------------------------------------------------------------------------------

class Char(str):
    pass


class Symbol(str):
    pass


class Arr:
    """An Array: numpy data in column-major sense, with the element type's name."""
    __slots__ = ("a", "et")

    def __init__(self, a, et):
        self.a, self.et = a, et


class Rng:
    def __init__(self, a, s, n, flt):
        self.a, self.s, self.n, self.flt = a, s, n, flt

    def items(self):
        if self.flt == "lin":
            if self.n == 1:
                return [float(self.a)]
            return [self.a + (self.s - self.a) * k / (self.n - 1) for k in range(self.n)]
        return [self.a + self.s * k for k in range(self.n)]


class Struct:
    def __init__(self, ty):
        self.ty, self.f = ty, {}


class Type:
    def __init__(self, name, mutable, fields):
        self.name, self.mutable, self.fields = name, mutable, fields
        self.ctors = Func(name)


class Func:
    def __init__(self, name):
        self.name, self.methods = name, []


class TypeRef:
    """A built-in type."""

    def __init__(self, name, params=()):
        self.name, self.params = name, tuple(params)

    def __repr__(self):
        return self.name + ("{%s}" % ", ".join(map(str, self.params)) if self.params else "")


class Module:
    def __init__(self, name, scope):
        self.name, self.scope = name, scope


class File:
    def __init__(self, f):
        self.f = f


NUMTYPES = {
    "Any": lambda v: True,
    "Number": lambda v: isinstance(v, (int, float)),
    "Real": lambda v: isinstance(v, (int, float)),
    "Integer": lambda v: isinstance(v, int),
    "Signed": lambda v: isinstance(v, int) and not isinstance(v, bool),
    "Int": lambda v: isinstance(v, int) and not isinstance(v, bool),
    "Int64": lambda v: isinstance(v, int) and not isinstance(v, bool),
    "Bool": lambda v: isinstance(v, bool),
    "AbstractFloat": lambda v: isinstance(v, float),
    "Float64": lambda v: isinstance(v, float),
    "AbstractString": lambda v: isinstance(v, str) and not isinstance(v, (Char, Symbol)),
    "String": lambda v: isinstance(v, str) and not isinstance(v, (Char, Symbol)),
    "Char": lambda v: isinstance(v, Char),
    "Symbol": lambda v: isinstance(v, Symbol),
    "Nothing": lambda v: v is None,
    "Tuple": lambda v: isinstance(v, tuple),
    "Function": lambda v: callable(v) or isinstance(v, Func),
    "IO": lambda v: isinstance(v, File),
    "IOStream": lambda v: isinstance(v, File),
    "AbstractRange": lambda v: isinstance(v, Rng),
    "UnitRange": lambda v: isinstance(v, Rng),
}
SPECIFIC = {"Any": 0, "Number": 1, "Real": 2, "AbstractArray": 1, "AbstractVector": 2, "AbstractString": 1, "Array": 2, "Integer": 3,
            "AbstractFloat": 3, "Signed": 4}
ARRAYS = {"Array": None, "AbstractArray": None, "DenseArray": None, "Vector": 1, "AbstractVector": 1, "Matrix": 2,
          "AbstractMatrix": 2, "AbstractVecOrMat": 0, "VecOrMat": 0}
SUPER = {"Int64": ["Int", "Signed", "Integer", "Real", "Number"], "Float64": ["AbstractFloat", "Real", "Number"],
         "Integer": ["Real", "Number"], "Bool": ["Integer", "Real", "Number"]}


def canon(n):
    return "Int64" if n == "Int" else n


def isa(v, ty):
    if isinstance(ty, Type):
        return isinstance(v, Struct) and v.ty is ty
    n = ty.name
    if n in NUMTYPES:
        return NUMTYPES[n](v)
    if n in ARRAYS:
        if isinstance(v, Rng):
            return n.startswith("Abstract") and ARRAYS[n] in (None, 1, 0) and not ty.params
        if not isinstance(v, Arr):
            return False
        d = ARRAYS[n]
        if d and v.a.ndim != d:
            return False
        if ty.params:
            p = ty.params[0]
            if not isinstance(p, TypeRef):
                raise Unsupported("array of %s" % p)
            if p.name != "Any" and canon(p.name) != canon(v.et):
                return False
            if p.name == "Any" and v.et != "Any":
                return False
            if len(ty.params) > 1 and v.a.ndim != ty.params[1]:
                return False
        return True
    raise Unsupported("type %s" % n)


def specificity(ty):
    if ty is None:
        return 0
    if isinstance(ty, Type):
        return 9
    return SPECIFIC.get(ty.name, 5) + (2 if ty.params else 0)


def wrapint(v):
    if -(1 << 63) <= v < (1 << 63):
        return v
    raise Unsupported("integer overflow")


def etype(v):
    if isinstance(v, bool):
        return "Bool"
    if isinstance(v, int):
        return "Int64"
    if isinstance(v, float):
        return "Float64"
    return "Any"


def convert(et, v):
    et = canon(et)
    if et == "Any":
        return v
    if et == "Float64" or et == "AbstractFloat":
        if isinstance(v, (int, float)):
            return float(v)
    elif et in ("Int64", "Integer", "Signed"):
        if isinstance(v, bool):
            return v if et == "Integer" else int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            if v == v and abs(v) != math.inf and v == int(v):
                return int(v)
            raise JuliaError("InexactError: Int64(%r)" % v)
    elif et in ("Number", "Real"):
        if isinstance(v, (int, float)):
            return v
    elif et == "Bool":
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)) and v in (0, 1):
            return bool(v)
        if isinstance(v, (int, float)):
            raise JuliaError("InexactError: Bool(%r)" % v)
    elif et == "String":
        if isinstance(v, str):
            return v
    else:
        raise Unsupported("element type %s" % et)
    raise Unsupported("MethodError: cannot convert %s to %s" % (show(v)[:60], et))


def mkarr(items, shape=None, et=None):
    """An array of the items, in column-major order."""
    if et is None:
        ts = {etype(x) for x in items}
        if ts == {"Int64", "Float64"}:
            items, ts = [float(x) for x in items], {"Float64"}
        et = ts.pop() if len(ts) == 1 else "Any"
    a = np.empty(len(items), object)
    for i, x in enumerate(items):
        a[i] = x
    if shape is not None:
        a = a.reshape(shape, order="F")
    return Arr(a, et)


def flat(v):
    return list(v.a.reshape(-1, order="F"))


def show(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return showfloat(v)
    if isinstance(v, int):
        return str(v)
    if v is None:
        return "nothing"
    if isinstance(v, str):
        return str(v)
    if isinstance(v, Arr):
        if v.a.ndim == 1:
            pre = "" if v.et in ("Int64", "Float64", "Bool") else v.et
            return pre + "[" + ", ".join(show(x) if not isinstance(x, str) else '"%s"' % x for x in flat(v)) + "]"
        return "array of size %s" % (v.a.shape,)
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ("," if len(v) == 1 else "") + ")"
    if isinstance(v, Rng):
        return "a range"
    if isinstance(v, Struct):
        return v.ty.name + "(...)"
    if isinstance(v, TypeRef):
        return repr(v)
    raise Unsupported("printing")


def showfloat(x):
    if x != x:
        return "NaN"
    if x in (math.inf, -math.inf):
        return "Inf" if x > 0 else "-Inf"
    if x == 0:
        return "-0.0" if math.copysign(1, x) < 0 else "0.0"
    if 1e-4 <= abs(x) < 1e6:
        r = repr(x)
        return format(x, "f").rstrip("0") if "e" in r else r
    m, _, e = ("%r" % x).partition("e")
    if not e:
        from decimal import Decimal
        t = Decimal(repr(x)).normalize().as_tuple()
        d = "".join(map(str, t.digits))
        return ("-" if t.sign else "") + d[0] + "." + (d[1:] or "0") + "e%d" % (t.exponent + len(d) - 1)
    return (m if "." in m else m + ".0") + "e%d" % int(e)


# --- arithmetic ---------------------------------------------------------------------------------------

def num(*vs):
    for v in vs:
        if not isinstance(v, (int, float)):
            return False
    return True


def nomethod(op, *a):
    # arithmetic on texts or nothing is an error for certain; the rest may be this interpreter's gap
    if not any(isinstance(x, str) or x is None for x in a):
        raise Unsupported("%s(%s)" % (op, ", ".join(typename(x) for x in a)))
    raise JuliaError("MethodError: no method matching %s(%s)" % (op, ", ".join(typename(x) for x in a)))


def typename(v):
    if isinstance(v, Arr):
        return "Array{%s, %d}" % (v.et, v.a.ndim)
    if isinstance(v, Struct):
        return v.ty.name
    return {bool: "Bool", int: "Int64", float: "Float64", str: "String", type(None): "Nothing", tuple: "Tuple",
            Rng: "range"}.get(type(v), type(v).__name__)


def fdiv(a, b):
    a, b = float(a), float(b)
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def scalar(op, a, b):
    if not num(a, b):
        if op == "*" and isinstance(a, str) and isinstance(b, str):
            return str(a) + str(b)
        if op == "^" and isinstance(a, str) and isinstance(b, int):
            return a * b
        return nomethod(op, a, b)
    fl = isinstance(a, float) or isinstance(b, float)
    if op == "+":
        return float(a) + float(b) if fl else wrapint(a + b)
    if op == "-":
        return float(a) - float(b) if fl else wrapint(a - b)
    if op == "*":
        if isinstance(a, bool) and isinstance(b, bool):
            return a and b
        return float(a) * float(b) if fl else wrapint(a * b)
    if op == "/":
        return fdiv(a, b)
    if op == "^":
        if fl:
            return float(a) ** float(b)
        if b < 0:
            if a in (1, -1):
                return a ** -b
            raise JuliaError("DomainError")
        return wrapint(a ** b)
    if op in ("%", "rem"):
        if fl:
            return math.fmod(a, b) if b else math.nan
        if b == 0:
            raise JuliaError("DivideError: integer division error")
        return a - b * int_trunc(a, b)
    if op in ("÷", "div"):
        if fl:
            return float(math.trunc(fdiv(a, b))) if b else fdiv(a, b)
        if b == 0:
            raise JuliaError("DivideError: integer division error")
        return int_trunc(a, b)
    if op == "mod":
        if fl:
            if b == 0:
                return math.nan
            r = math.fmod(a, b)
            return r + b if r and (r < 0) != (b < 0) else (math.copysign(0.0, b) if r == 0 else r)
        if b == 0:
            raise JuliaError("DivideError: integer division error")
        return a % b
    if op == "mod1":
        if not fl and b == 0:
            raise JuliaError("DivideError: integer division error")
        m = scalar("mod", a, b)
        return b if m == 0 else m
    if op == "fld":
        if not fl:
            if b == 0:
                raise JuliaError("DivideError: integer division error")
            return a // b
        return float(math.floor(fdiv(a, b)))
    if op == "fld1":
        return scalar("fld", scalar("-", a, 1), b) + 1
    if op == "cld":
        if not fl:
            return -((-a) // b)
        return float(math.ceil(fdiv(a, b)))
    if op == "min":
        if a != a or b != b:
            return math.nan
        return (min(float(a), float(b)) if fl else min(a, b))
    if op == "max":
        if a != a or b != b:
            return math.nan
        return (max(float(a), float(b)) if fl else max(a, b))
    if op in ("&", "|"):
        if fl:
            return nomethod(op, a, b)
        return (a & b) if op == "&" else (a | b)
    raise Unsupported("operator %s" % op)


def int_trunc(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def compare1(op, a, b):
    op = {"≤": "<=", "≥": ">=", "≠": "!="}.get(op, op)
    if op == "===":
        if isinstance(a, (Arr, Struct)) or isinstance(b, (Arr, Struct)):
            return a is b
        return type(a) is type(b) and a == b
    if op == "!==":
        return not compare1("===", a, b)
    if op == "==":
        if isinstance(a, (Arr, Rng)) and isinstance(b, (Arr, Rng)):
            a, b = toarr(a), toarr(b)
            return a.a.shape == b.a.shape and all(x == y for x, y in zip(flat(a), flat(b)))
        if isinstance(a, (Arr, Rng, Struct)) or isinstance(b, (Arr, Rng, Struct)):
            return a is b
        if isinstance(a, Char) != isinstance(b, Char) and isinstance(a, str) and isinstance(b, str):
            return False
        if num(a) != num(b):
            return False
        return a == b
    if op == "!=":
        return not compare1("==", a, b)
    if num(a, b) or (isinstance(a, str) and isinstance(b, str)):
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    if op == "<:":
        raise Unsupported("subtype")
    return nomethod(op, a, b)


def toarr(v):
    if isinstance(v, Rng):
        return mkarr(v.items(), None, "Float64" if v.flt else "Int64")
    return v


def isarr(v):
    return isinstance(v, (Arr, Rng))


def broadcast(f, args):
    arrs = []
    for a in args:
        if isinstance(a, tuple):
            arrs.append(np.array(list(a) + [None], object)[:-1])
        elif isarr(a):
            arrs.append(toarr(a).a)
        else:
            arrs.append(None)
    nd = max([a.ndim for a in arrs if a is not None], default=None)
    if nd is None:
        return f(*args)
    shape = [1] * nd
    for a in arrs:
        if a is not None:
            for k, d in enumerate(a.shape):
                if d != 1:
                    if shape[k] not in (1, d):
                        raise JuliaError("DimensionMismatch: arrays could not be broadcast to a common size")
                    shape[k] = d
                elif shape[k] == 1:
                    pass
    if any(a is not None and 0 in a.shape for a in arrs):
        shape = [0 if any(a is not None and k < a.ndim and a.shape[k] == 0 for a in arrs) else s for k, s in enumerate(shape)]
    full = []
    for a, v in zip(arrs, args):
        if a is None:
            full.append(None)
        else:
            a = a.reshape(a.shape + (1,) * (nd - a.ndim), order="F")
            full.append(np.broadcast_to(a, shape))
    out = []
    n = int(np.prod(shape))
    cols = [None if x is None else list(x.reshape(-1, order="F")) for x in full]
    for k in range(n):
        out.append(f(*[args[j] if c is None else c[k] for j, c in enumerate(cols)]))
    if n == 0:
        raise Unsupported("empty broadcast")
    return mkarr(out, tuple(shape))


def binop(op, a, b):
    if op.startswith("."):
        return broadcast(lambda x, y: binop(op[1:], x, y), [a, b])
    if not isarr(a) and not isarr(b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return nomethod(op, a, b)
        return scalar(op, a, b)
    if op in ("+", "-"):
        if isarr(a) and isarr(b):
            x, y = toarr(a), toarr(b)
            if x.a.shape != y.a.shape:
                raise JuliaError("DimensionMismatch: dimensions must match: %s %s" % (x.a.shape, y.a.shape))
            return broadcast(lambda p, q: scalar(op, p, q), [x, y])
        return nomethod(op, a, b)
    if op == "*":
        if num(a) or num(b):
            return broadcast(lambda p, q: scalar(op, p, q), [a, b])
        if not (isarr(a) and isarr(b)):
            return nomethod(op, a, b)
        x, y = toarr(a), toarr(b)
        if x.a.ndim == 2 and y.a.ndim in (1, 2):
            if x.a.shape[1] != y.a.shape[0]:
                raise JuliaError("DimensionMismatch: matrix product")
            ym = y.a.reshape(y.a.shape[0], -1, order="F")
            out = []
            for j in range(ym.shape[1]):
                for i in range(x.a.shape[0]):
                    s = None
                    for k in range(x.a.shape[1]):
                        t = scalar("*", x.a[i, k], ym[k, j])
                        s = t if s is None else scalar("+", s, t)
                    out.append(0 if s is None else s)
            r = mkarr(out, (x.a.shape[0],) if y.a.ndim == 1 else (x.a.shape[0], ym.shape[1]))
            if x.et == "Integer" or y.et == "Integer":
                r.et = "Integer" if r.et == "Int64" else r.et
            return r
        return nomethod(op, a, b)
    if op == "/":
        if isarr(a) and num(b):
            return broadcast(fdiv, [a, b])
        return nomethod(op, a, b)
    raise Unsupported("%s of arrays" % op)


def unop(op, a):
    if op.startswith("."):
        return broadcast(lambda x: unop(op[1:], x), [a])
    if op == "!":
        if isinstance(a, bool):
            return not a
        return nomethod("!", a)
    if isarr(a):
        return broadcast(lambda x: unop(op, x), [a])
    if not num(a):
        return nomethod(op, a)
    if op == "-":
        return -a if not isinstance(a, bool) else -int(a)
    if op == "+":
        return a
    if op == "~":
        return ~a
    raise Unsupported(op)


# --- interpreter --------------------------------------------------------------------------------------

class Scope:
    __slots__ = ("vars", "parent", "globals", "decl", "module")

    def __init__(self, parent, decl=(), module=None):
        self.vars, self.parent = {}, parent
        self.globals = set()
        self.decl = decl
        self.module = module

    def root(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


class Return_(Exception):
    def __init__(self, v):
        super().__init__()
        self.v = v


def targets_of(e, out):
    k = e[0]
    if k == "var":
        out.add(e[1])
    elif k == "tuple":
        for x in e[1]:
            targets_of(x, out)
    elif k == "typed":
        targets_of(e[1], out)


def assigned(e, out, glob):
    """Names assigned in a body, outside of inner scopes of functions; loops' own variables excluded."""
    if not isinstance(e, tuple) or not e:
        if isinstance(e, list):
            for x in e:
                assigned(x, out, glob)
        return
    k = e[0]
    if k == "assign":
        if not e[1].startswith("."):
            targets_of(e[2], out)
        assigned(e[2], out, glob) if e[2][0] in ("index", "field") else None
        assigned(e[3], out, glob)
        return
    if k == "global":
        g = set()
        if e[1][0] == "assign":
            targets_of(e[1][2], g)
            assigned(e[1][3], out, glob)
        else:
            targets_of(e[1], g)
        glob |= g
        return
    if k == "local":
        g = set()
        targets_of(e[1][2] if e[1][0] == "assign" else e[1], g)
        out |= g
        return
    if k in ("lambda", "function", "for", "while", "let", "compr", "comprarr", "struct", "module", "lit", "str", "macro"):
        if k == "function":
            out.add(e[1])
        return
    for x in e[1:]:
        if isinstance(x, (tuple, list)):
            assigned(x, out, glob)


REMOVED = {"linspace", "logspace", "warn", "info", "ind2sub", "sub2ind", "contains_", "eye", "indmax", "indmin", "findin", "nb_available",
           "readstring", "flipdim", "squeeze", "cor", "parse_", "srand", "endof", "quadgk", "trunc_", "vecnorm", "vecdot", "A_mul_B!",
           "full", "spzeros_", "ones_like", "zeros_like", "permutedims_", "slice", "sumabs", "sumabs2", "strwidth", "indexin_",
           "ctranspose", "isnull", "gc", "tic", "toc", "toq", "expm", "logm", "sqrtm"}
CONSTS = {"nothing": None, "true": True, "false": False, "Inf": math.inf, "NaN": math.nan, "pi": math.pi, "π": math.pi, "Inf64": math.inf,
          "NaN64": math.nan}


TREES = {}


class Interp:
    def __init__(self, argv=(), cwd=".", limit=3000000):
        self.out = []
        self.err = []
        self.argv = list(argv)
        self.cwd = cwd
        self.steps = 0
        self.limit = limit
        self.files = []
        self.using = set()
        self.userwords = set()      # names the programs themselves assign, and the files they include
        self.g = Scope(None)
        self.path = ""
        self.g.vars["ARGS"] = mkarr(list(argv), None, "String")
        self.endstack = []
        b = {}
        for n in dir(self):
            if n.startswith("b_"):
                b[n[2:].replace("_bang", "!")] = getattr(self, n)
        for op in ("mod", "rem", "div", "mod1", "fld", "cld", "fld1"):
            b[op] = (lambda o: lambda x, y: scalar(o, x, y) if num(x, y) else nomethod(o, x, y))(op)
        for op in ("+", "-", "*", "/", "^", "%"):
            b[op] = (lambda o: lambda *a: self.opcall(o, a))(op)
        for n, f in (("sqrt", math.sqrt), ("sin", math.sin), ("cos", math.cos), ("exp", math.exp), ("log", math.log),
                     ("tan", math.tan)):
            b[n] = (lambda g: lambda x: g(x) if num(x) else nomethod(n, x))(f)
        self.base = b
        self.types = {n: TypeRef(n) for n in list(NUMTYPES) + list(ARRAYS) + ["Float32", "Int32", "UInt", "UInt64", "Dict", "Set",
                                                                            "Complex", "Rational"]}

    def opcall(self, op, a):
        if len(a) == 1:
            return unop(op, a[0])
        r = a[0]
        for x in a[1:]:
            r = binop(op, r, x)
        return r

    # names
    def lookup(self, sc, name):
        s = sc
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            if name in s.decl and s.parent is not None and name not in s.globals:
                raise JuliaError("UndefVarError: %s not defined" % name)
            if s.parent is None:
                break
            if name in s.globals:
                s = s.root()
                continue
            s = s.parent
        if name in CONSTS:
            return CONSTS[name]
        if name in self.base:
            if name in ("dot", "norm", "tr", "transpose_") and "LinearAlgebra" not in self.using:
                raise JuliaError("UndefVarError: %s not defined" % name)
            return self.base[name]
        if name in self.types:
            return self.types[name]
        return Missing(name)

    def value(self, sc, name):
        v = self.lookup(sc, name)
        if isinstance(v, Missing):
            if name in ("stdout", "stderr"):
                return File(name)
            if name in REMOVED or name in self.userwords:
                raise JuliaError("UndefVarError: %s not defined" % name)
            raise Unsupported("name %s" % name)
        return v

    def assign(self, sc, name, v):
        s = sc
        while s.parent is not None:
            if name in s.globals:
                s.root().vars[name] = v
                return
            if name in s.vars or name in s.decl:
                s.vars[name] = v
                return
            s = s.parent
        if sc.parent is None:
            sc.vars[name] = v
        else:
            sc.vars[name] = v

    def inner(self, sc, body, extra=()):
        """A scope for a body: the names it assigns belong to it unless an enclosing local scope has them."""
        out, glob = set(), set()
        key = id(body)
        c = self.cache.get(key)
        if c is None:
            assigned(body, out, glob)
            c = self.cache[key] = (out, glob, body)
        out, glob, _ = c
        mine = set(extra)
        for n in out - glob:
            s = sc
            while s.parent is not None:
                if n in s.vars or n in s.decl:
                    break
                s = s.parent
            else:
                mine.add(n)
        r = Scope(sc, frozenset(mine))
        r.globals = set(glob)
        return r

    cache = None

    # running
    def run_text(self, text, path=""):
        if self.cache is None:
            self.cache = {}
        self.path = path
        self.userwords.update(re.findall(r"(?m)^\s*(?:global\s+|local\s+|const\s+)?([A-Za-z_]\w*)\s*[-+*/]?=(?![=>])", text))
        self.userwords.add(os.path.splitext(os.path.basename(path))[0])
        if text not in TREES:
            TREES[text] = parse(text)
        tree = TREES[text]
        self.trees = getattr(self, "trees", []) + [tree]
        return self.ev(tree, self.g)

    def run_file(self, path):
        with open(path, errors="replace") as f:
            return self.run_text(f.read(), path)

    def ev(self, e, sc):
        self.steps += 1
        if self.steps > self.limit:
            raise Unsupported("too many operations")
        return getattr(self, "e_" + e[0])(e, sc)

    def e_block(self, e, sc):
        r = None
        for s in e[1]:
            r = self.ev(s, sc)
        return r

    def e_lit(self, e, sc):
        return e[1]

    def e_str(self, e, sc):
        return "".join(p if isinstance(p, str) else show(self.ev(p, sc)) for p in e[1])

    def e_var(self, e, sc):
        if e[1] == "begin" and self.endstack:
            return 1
        if e[1] == "end" and self.endstack:
            return self.endstack[-1]
        return self.value(sc, e[1])

    def e_tuple(self, e, sc):
        return tuple(self.items(e[1], sc))

    def e_vect(self, e, sc):
        return mkarr(self.items(e[1], sc)) if e[1] else Arr(np.empty(0, object), "Any")

    def e_vcat(self, e, sc):
        out = []
        for v in self.items(e[1], sc):
            out += flat(toarr(v)) if isarr(v) else [v]
        return mkarr(out)

    def e_mat(self, e, sc):
        rows = [self.items(r, sc) for r in e[1]]
        if any(isarr(x) for r in rows for x in r) or len({len(r) for r in rows}) != 1:
            raise Unsupported("block matrix")
        n, m = len(rows), len(rows[0])
        return mkarr([rows[i][j] for j in range(m) for i in range(n)], (n, m))

    def items(self, es, sc):
        out = []
        for x in es:
            if x[0] == "splat":
                v = self.ev(x[1], sc)
                out += self.iterate(v)
            elif x[0] == "compr":
                out.append(mkarr(self.comprehend(x, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def iterate(self, v):
        if isinstance(v, Rng):
            return v.items()
        if isinstance(v, Arr):
            return flat(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return [Char(c) for c in v]
        if num(v):
            return [v]
        raise Unsupported("MethodError: no method matching iterate(%s)" % typename(v))

    def comprehend(self, e, sc):
        out = []

        def go(k, s):
            if k == len(e[2]):
                if e[3] is not None and not self.truth(self.ev(e[3], s)):
                    return
                out.append(self.ev(e[1], s))
                return
            v, it = e[2][k]
            for x in self.iterate(self.ev(it, s)):
                s2 = Scope(s)
                self.bind(v, x, s2)
                go(k + 1, s2)
        go(0, sc)
        return out

    def e_compr(self, e, sc):
        return mkarr(self.comprehend(e, sc))

    def e_comprarr(self, e, sc):
        c = e[1]
        if len(c[2]) > 1:
            if c[3] is not None:
                raise Unsupported("comprehension")
            sizes = [len(self.iterate(self.ev(it, sc))) for _, it in c[2]]
            rev = ("compr", c[1], c[2][::-1], None)
            return mkarr(self.comprehend(rev, sc), tuple(sizes))
        r = self.comprehend(c, sc)
        return mkarr(r) if r else Arr(np.empty(0, object), "Any")

    def bind(self, v, x, s):
        if v[0] == "var":
            s.vars[v[1]] = x
        else:
            for a, b in zip(v[1], self.iterate(x)):
                self.bind(a, b, s)

    def e_typed(self, e, sc):
        v = self.ev(e[1], sc)
        if not isa(v, self.type(e[2], sc)):
            raise JuliaError("TypeError: in typeassert, got a value of type %s" % typename(v))
        return v

    def type(self, e, sc):
        v = self.ev(e, sc) if e[0] != "var" else self.lookup(sc, e[1])
        if isinstance(v, (Type, TypeRef)):
            return v
        if isinstance(v, Missing):
            raise Unsupported("type %s" % v.name)
        raise Unsupported("type expression")

    def e_curly(self, e, sc):
        t = self.type(e[1], sc)
        ps = []
        for p in e[2]:
            v = self.ev(p, sc)
            ps.append(v)
        return TypeRef(t.name, ps)

    def truth(self, v):
        if not isinstance(v, bool):
            raise JuliaError("TypeError: non-boolean (%s) used in boolean context" % typename(v))
        return v

    def e_if(self, e, sc):
        for c, b in e[1]:
            if self.truth(self.ev(c, sc)):
                return self.ev(b, sc)
        return self.ev(e[2], sc) if e[2] is not None else None

    def e_and(self, e, sc):
        return self.ev(e[2], sc) if self.truth(self.ev(e[1], sc)) else False

    def e_or(self, e, sc):
        return True if self.truth(self.ev(e[1], sc)) else self.ev(e[2], sc)

    def e_compare(self, e, sc):
        l = self.ev(e[2][0], sc)
        res = True
        for op, t in zip(e[1], e[2][1:]):
            r = self.ev(t, sc)
            if op in ("in", "∈"):
                v = any(compare1("==", l, x) for x in self.iterate(r))
            elif op == "isa":
                v = isa(l, r)
            elif op.startswith("."):
                v = broadcast(lambda a, b: compare1(op[1:], a, b), [l, r])
                if len(e[1]) > 1:
                    raise Unsupported("chained comparison of arrays")
                return v
            else:
                v = compare1(op, l, r)
            if not v:
                return False
            l, res = r, v
        return res

    def e_bin(self, e, sc):
        if e[1].lstrip(".") in ("+", "-", "*", "/"):
            f = self.lookup(sc, e[1].lstrip("."))
            if isinstance(f, Func):
                raise Unsupported("redefined operator")
        return binop(e[1], self.ev(e[2], sc), self.ev(e[3], sc))

    def e_un(self, e, sc):
        return unop(e[1], self.ev(e[2], sc))

    def e_adjoint(self, e, sc):
        v = self.ev(e[1], sc)
        if isinstance(v, Arr) and v.a.ndim == 2:
            return Arr(v.a.T, v.et)
        raise Unsupported("adjoint")

    def e_range(self, e, sc):
        a, s, b = self.ev(e[1], sc), 1 if e[2] is None else self.ev(e[2], sc), self.ev(e[3], sc)
        if not num(a, s, b):
            return nomethod(":", a, b)
        if any(isinstance(x, float) for x in (a, s, b)):
            if s == 0:
                raise JuliaError("ArgumentError: step cannot be zero")
            n = int(math.floor((b - a) / s + 1e-9)) + 1
            return Rng(float(a), float(s), max(0, n), "float")
        if s == 0:
            raise JuliaError("ArgumentError: step cannot be zero")
        n = (b - a) // s + 1
        return Rng(a, s, max(0, n), None)

    def e_field(self, e, sc):
        if e[1][0] == "var":
            v = self.lookup(sc, e[1][1])
            if isinstance(v, Missing):
                if v.name in ("Base", "Core", "Main", "LinearAlgebra", "Printf"):
                    return self.modfield(v.name, e[2])
                if v.name not in self.userwords:
                    raise Unsupported("module %s" % v.name)
                raise JuliaError("UndefVarError: %s not defined" % v.name)
        else:
            v = self.ev(e[1], sc)
        if isinstance(v, Module):
            r = v.scope.vars.get(e[2])
            if r is None:
                raise JuliaError("UndefVarError: %s not defined" % e[2])
            return r
        if isinstance(v, Struct):
            if e[2] not in dict(v.ty.fields):
                raise JuliaError("type %s has no field %s" % (v.ty.name, e[2]))
            if e[2] not in v.f:
                raise JuliaError("UndefRefError: access to undefined reference")
            return v.f[e[2]]
        raise Unsupported("field %s" % e[2])

    def modfield(self, m, n):
        if m == "Main":
            return self.value(self.g, n)
        if n in self.base:
            return self.base[n]
        raise Unsupported("%s.%s" % (m, n))

    # indexing
    def index(self, a, ix, sc):
        """Positions (numpy index, result is scalar)."""
        if len(ix) == 1:
            shape = (a.a.size,)
        else:
            shape = a.a.shape
            if len(ix) > a.a.ndim:
                shape = shape + (1,) * (len(ix) - a.a.ndim)
            elif len(ix) < a.a.ndim:
                raise Unsupported("partial indices")
        out, sca = [], []
        for k, e in enumerate(ix):
            if e[0] == "colon":
                out.append(list(range(shape[k])))
                sca.append(False)
                continue
            self.endstack.append(shape[k])
            try:
                v = self.ev(e, sc)
            finally:
                self.endstack.pop()
            if isinstance(v, bool) or isinstance(v, float) or not (isinstance(v, int) or isarr(v)):
                raise JuliaError("ArgumentError: invalid index: %s of type %s" % (show(v)[:40], typename(v)))
            vs = [v] if isinstance(v, int) else self.iterate(v)
            if vs and all(isinstance(x, bool) for x in vs):
                if len(vs) != shape[k]:
                    raise JuliaError("BoundsError")
                vs = [i + 1 for i, x in enumerate(vs) if x]
            for x in vs:
                if isinstance(x, float) or not isinstance(x, int):
                    raise JuliaError("ArgumentError: invalid index: %r of type %s" % (x, typename(x)))
                if not 1 <= x <= shape[k]:
                    raise JuliaError("BoundsError: attempt to access %s at index [%s]" % (typename(a), x))
            out.append([x - 1 for x in vs])
            sca.append(isinstance(v, int))
        return out, sca, shape

    def e_index(self, e, sc):
        a = self.ev(e[1], sc)
        if isinstance(a, (TypeRef, Type)):
            if isinstance(a, Type):
                raise Unsupported("array of structures")
            return Arr(mkarr([convert(a.name, x) for x in self.items(e[2], sc)], None, canon(a.name)).a, canon(a.name))
        if isinstance(a, tuple) or isinstance(a, Rng):
            its = self.iterate(a)
            if len(e[2]) != 1:
                raise Unsupported("index")
            self.endstack.append(len(its))
            try:
                i = self.ev(e[2][0], sc)
            finally:
                self.endstack.pop()
            if isinstance(i, bool) or not isinstance(i, int):
                raise Unsupported("index")
            if not 1 <= i <= len(its):
                raise JuliaError("BoundsError: attempt to access a %s at index [%d]" % (typename(a), i))
            return its[i - 1]
        if isinstance(a, str):
            i = self.ev(e[2][0], sc)
            if isinstance(i, int):
                if not 1 <= i <= len(a):
                    raise JuliaError("BoundsError")
                return Char(a[i - 1])
            raise Unsupported("substring")
        if not isinstance(a, Arr):
            return nomethod("getindex", a)
        ix, sca, shape = self.index(a, e[2], sc)
        if not ix:
            raise Unsupported("index")
        if len(ix) == 1:
            f = a.a.reshape(-1, order="F")
            if sca[0]:
                return f[ix[0][0]]
            return Arr(f[np.array(ix[0], int)], a.et)
        r = a.a.reshape(shape, order="F")[np.ix_(*ix)]
        keep = [len(x) for x, s in zip(ix, sca) if not s]
        if not keep:
            return r.reshape(-1)[0]
        return Arr(r.reshape(keep, order="F"), a.et)

    def setindex(self, a, ixe, v, sc, dotted=False):
        if isinstance(a, Rng):
            raise JuliaError("CanonicalIndexError: setindex! not defined for a range")
        if not isinstance(a, Arr):
            return nomethod("setindex!", a)
        ix, sca, shape = self.index(a, ixe, sc)
        if not a.a.flags.f_contiguous and not a.a.flags.c_contiguous:
            raise Unsupported("a view")
        n = 1
        for x in ix:
            n *= len(x)
        if all(sca) and not dotted:
            vals = [v]
        elif isarr(v):
            vals = self.iterate(v)
            if len(vals) != n and not (dotted and len(vals) == 1):
                raise JuliaError("DimensionMismatch: tried to assign %d elements to %d destinations" % (len(vals), n))
            if len(vals) == 1:
                vals = vals * n
        elif dotted or isinstance(v, (int, float)):
            if not dotted:
                raise JuliaError("ArgumentError: indexed assignment with a single value to possibly many locations is not supported")
            vals = [v] * n
        else:
            raise Unsupported("indexed assignment")
        vals = [convert(a.et, x) for x in vals]
        if len(ix) == 1:
            for x, val in zip(ix[0], vals):
                a.a[np.unravel_index(x, a.a.shape, order="F")] = val
        else:
            grid = [[]]
            for x in ix[::-1]:
                grid = [[y] + g for g in grid for y in x]
            for p, val in zip(grid, vals):
                a.a[tuple(p[:a.a.ndim])] = val

    def e_assign(self, e, sc):
        op, t, rhs = e[1], e[2], e[3]
        if op == "=":
            v = self.ev(rhs, sc)
            self.store(t, v, sc)
            return v
        if op == ".=":
            v = self.ev(rhs, sc)
            self.dotstore(t, v, sc)
            return v
        o = op[:-1]
        if o.startswith("."):
            cur = self.ev(t, sc)
            v = binop(o, cur, self.ev(rhs, sc))
            self.dotstore(t, v, sc)
            return v
        v = binop(o, self.ev(t, sc), self.ev(rhs, sc))
        self.store(t, v, sc)
        return v

    def dotstore(self, t, v, sc):
        if t[0] == "index":
            self.setindex(self.ev(t[1], sc), t[2], v, sc, True)
            return
        a = self.ev(t, sc)
        if not isinstance(a, Arr):
            raise Unsupported(".= to a %s" % typename(a))
        if isarr(v):
            vv = toarr(v)
            r = np.broadcast_to(vv.a.reshape(vv.a.shape + (1,) * (a.a.ndim - vv.a.ndim)), a.a.shape)
            for k in np.ndindex(*a.a.shape):
                a.a[k] = convert(a.et, r[k])
        else:
            for k in np.ndindex(*a.a.shape):
                a.a[k] = convert(a.et, v)

    def store(self, t, v, sc):
        k = t[0]
        if k == "var":
            self.assign(sc, t[1], v)
        elif k == "typed":
            self.store(t[1], v, sc)
        elif k == "field":
            o = self.ev(t[1], sc)
            if not isinstance(o, Struct):
                raise Unsupported("field assignment")
            if not o.ty.mutable:
                raise JuliaError("setfield!: immutable struct of type %s cannot be changed" % o.ty.name)
            self.setfield(o, t[2], v)
        elif k == "index":
            self.setindex(self.ev(t[1], sc), t[2], v, sc)
        elif k == "tuple":
            vs = self.iterate(v)
            if len(vs) < len(t[1]):
                raise JuliaError("BoundsError: too few values")
            for a, b in zip(t[1], vs):
                self.store(a, b, sc)
        else:
            raise Unsupported("assignment")

    def setfield(self, o, n, v):
        d = dict(o.ty.fields)
        if n not in d:
            raise JuliaError("type %s has no field %s" % (o.ty.name, n))
        ty = d[n]
        if ty is not None and not isa(v, ty):
            if isinstance(ty, TypeRef) and ty.name in ("Int", "Int64", "Float64", "Integer", "Bool", "Real", "Number"):
                v = convert(ty.name, v)
            elif isinstance(ty, TypeRef) and ty.name in ("Array", "Vector", "Matrix") and isarr(v):
                v = toarr(v)
                if ty.params and isinstance(ty.params[0], TypeRef):
                    et = ty.params[0].name
                    v = mkarr([convert(et, x) for x in flat(v)], v.a.shape, canon(et))
                if not isa(v, ty):
                    raise Unsupported("MethodError: cannot convert to field type %s" % ty)
            else:
                raise Unsupported("MethodError: cannot convert an object of type %s to an object of type %s" % (typename(v), ty))
        o.f[n] = v

    # control
    def e_for(self, e, sc):
        def go(k, s):
            if k == len(e[1]):
                s2 = self.inner(s, e[2])
                try:
                    self.ev(e[2], s2)
                except Continue_:
                    pass
                return
            v, it = e[1][k]
            for x in self.iterate(self.ev(it, s)):
                s2 = Scope(s)
                self.bind(v, x, s2)
                s2.decl = frozenset(s2.vars)
                go(k + 1, s2)
        try:
            go(0, sc)
        except Break_:
            pass

    def e_while(self, e, sc):
        try:
            while self.truth(self.ev(e[1], sc)):
                s2 = self.inner(sc, e[2])
                try:
                    self.ev(e[2], s2)
                except Continue_:
                    pass
        except Break_:
            pass

    def e_let(self, e, sc):
        return self.ev(e[1], self.inner(sc, e[1]))

    def e_break(self, e, sc):
        raise Break_()

    def e_continue(self, e, sc):
        raise Continue_()

    def e_return(self, e, sc):
        raise Return_(self.ev(e[1], sc))

    def e_global(self, e, sc):
        t = e[1]
        if t[0] == "assign":
            g = set()
            targets_of(t[2], g)
            sc.globals |= g
            return self.ev(t, sc)
        g = set()
        targets_of(t, g)
        sc.globals |= g

    def e_local(self, e, sc):
        if e[1][0] == "assign":
            v = self.ev(e[1][3], sc)
            g = set()
            targets_of(e[1][2], g)
            sc.decl = frozenset(sc.decl | g)
            self.store(e[1][2], v, sc)
        elif e[1][0] == "var":
            sc.decl = frozenset(sc.decl | {e[1][1]})

    def e_using(self, e, sc):
        for n in re.split(r"[,:]", e[1])[:1 if ":" in e[1] else None]:
            n = n.strip()
            if n not in ("LinearAlgebra", "Printf", "Base", "Statistics") and not n.startswith("."):
                raise Unsupported("package %s" % n)
            self.using.add(n)
        if e[1].startswith("."):
            raise Unsupported("using %s" % e[1])

    def e_module(self, e, sc):
        s = Scope(None)
        self.ev(e[2], s)
        self.g.vars[e[1]] = Module(e[1], s)

    def e_macro(self, e, sc):
        if e[1] == "assert":
            if not self.truth(self.ev(e[2][0], sc)):
                raise JuliaError("AssertionError")
            return None
        a = [self.ev(x, sc) for x in e[2]]
        if "Printf" not in self.using:
            raise JuliaError("LoadError: UndefVarError: @%s not defined" % e[1])
        f = None
        if e[1] == "printf" and isinstance(a[0], File):
            f, a = a[0], a[1:]
        s = self.sprintf(a[0], a[1:])
        if e[1] == "sprintf":
            return s
        self.emit(f, s)

    def sprintf(self, fmt, a):
        a = list(a)
        spec = re.compile(r"%([-+ 0#]*)(\d*)(?:\.(\d+))?([diufeEgGs%])")

        def sub(m):
            if m.group(4) == "%":
                return "%"
            if not a:
                raise JuliaError("ArgumentError: too few arguments for format")
            v = a.pop(0)
            c = m.group(4)
            if c in "diu":
                if isinstance(v, float):
                    v = convert("Int64", v)
                if not isinstance(v, int):
                    return nomethod("sprintf", v)
                return m.group(0).replace("u", "d").replace("i", "d") % v
            if c in "feEgG":
                if not num(v):
                    return nomethod("sprintf", v)
                return m.group(0) % float(v)
            return m.group(0) % show(v)
        r = spec.sub(sub, fmt)
        if a:
            raise JuliaError("ArgumentError: too many arguments for format")
        return r

    # functions
    def e_function(self, e, sc):
        _, name, params, body, rt = e
        home = sc if sc.parent is None else sc
        f = home.vars.get(name)
        if isinstance(f, Type):
            f.ctors.methods.insert(0, self.method(params, body, sc, rt))
            return f
        if not isinstance(f, Func):
            f = Func(name)
            home.vars[name] = f
        m = self.method(params, body, sc, rt)
        sig = [(p[1], p[2]) for p in params]
        f.methods = [x for x in f.methods if [(p[1], p[2]) for p in x[0]] != sig] + [m]
        return f

    def method(self, params, body, sc, rt=None):
        return (params, body, sc, rt)

    def e_lambda(self, e, sc):
        f = Func("#anonymous")
        f.methods.append(self.method(e[1], e[2], sc))
        return f

    def e_struct(self, e, sc):
        _, name, mutable, fields, ctors = e
        t = Type(name, mutable, [])
        sc.vars[name] = t
        t.fields = [(n, None if ty is None else self.type(ty, sc)) for n, ty in fields]
        inner = Scope(sc)
        inner.vars["new"] = lambda *a: self.construct(t, a)
        for c in ctors:
            t.ctors.methods.append(self.method(c[2], c[3], inner, None))
        return t

    def construct(self, t, a):
        if len(a) > len(t.fields):
            raise JuliaError("new: too many arguments")
        o = Struct(t)
        for (n, _), v in zip(t.fields, a):
            self.setfield(o, n, v)
        for n, ty in t.fields[len(a):]:
            if isinstance(ty, TypeRef) and ty.name in ("Int", "Int64", "Float64", "Bool"):
                o.f[n] = {"Float64": math.nan, "Bool": True}.get(ty.name, 0x5bad5bad5bad)       # whatever was in memory
        return o

    def call(self, f, a, kw=None):
        kw = kw or {}
        if isinstance(f, Type):
            if f.ctors.methods:
                return self.invoke(f.ctors, a, kw)
            if len(a) != len(f.fields):
                return nomethod(f.name, *a)
            return self.construct(f, a)
        if isinstance(f, Func):
            return self.invoke(f, a, kw)
        if isinstance(f, TypeRef):
            return self.convertcall(f, a)
        if isinstance(f, Missing):
            raise Unsupported("name %s" % f.name)
        if callable(f):
            try:
                return f(*a, **kw)
            except TypeError as x:
                raise Unsupported("%s(%s): %s" % (getattr(f, "__name__", "?"), ", ".join(map(typename, a)), x)) from None
        raise Unsupported("MethodError: objects of type %s are not callable" % typename(f))

    def convertcall(self, t, a):
        if t.name in ARRAYS:
            raise Unsupported("%r(...)" % t)
        if len(a) != 1:
            raise Unsupported("%r(...)" % t)
        if t.name in ("Float64", "Int", "Int64", "Integer", "Bool"):
            return convert(t.name, a[0])
        if t.name == "String":
            return str(a[0]) if isinstance(a[0], str) else nomethod("String", a[0])
        raise Unsupported("%r(...)" % t)

    def invoke(self, f, a, kw):
        best = None
        for m in f.methods:
            ps = [p for p in m[0] if p[2] in ("pos", "opt")]
            req = [p for p in m[0] if p[2] == "pos"]
            rest = [p for p in m[0] if p[2] == "rest"]
            if kw:
                raise Unsupported("keyword arguments of %s" % f.name)
            if len(a) < len(req) or (len(a) > len(ps) and not rest):
                continue
            tys = [None if p[1] is None else self.type(p[1], m[2]) for p in ps]
            if all(t is None or isa(v, t) for v, t in zip(a, tys)):
                s = sum(specificity(t) for t in tys)
                if best is None or s >= best[0]:
                    best = (s, m)
        if best is None:
            return nomethod(f.name, *a)
        params, body, home, rt = best[1]
        extra = [p[0] for p in params]
        sc = Scope(home)
        sc = self.inner(home, body, extra)
        i = 0
        for name, ty, kind, d in params:
            if kind == "rest":
                sc.vars[name] = tuple(a[i:])
            elif i < len(a):
                sc.vars[name] = a[i]
                i += 1
            else:
                sc.vars[name] = self.ev(d, sc)
        try:
            r = self.ev(body, sc)
        except Return_ as x:
            r = x.v
        except RecursionError:
            raise Unsupported("recursion") from None
        if rt is not None:
            t = self.type(rt, home)
            if not isa(r, t):
                r = convert(t.name, r) if isinstance(t, TypeRef) and t.name in NUMTYPES else nomethod("convert", r)
        return r

    def e_call(self, e, sc):
        _, fe, pos, kw, dotted = e
        if fe[0] == "var":
            f = self.lookup(sc, fe[1])
            if isinstance(f, Missing):
                if f.name in REMOVED:
                    raise JuliaError("UndefVarError: %s not defined" % f.name)
                raise Unsupported("function %s" % f.name)
        else:
            f = self.ev(fe, sc)
        a = self.items(pos, sc)
        k = {}
        for n, v in kw:
            if n[0] != "var":
                raise Unsupported("keyword")
            k[n[1]] = self.ev(v if v is not None else n, sc)
        if dotted:
            if k:
                raise Unsupported("keyword of a broadcast")
            return broadcast(lambda *x: self.call(f, x), a)
        return self.call(f, a, k)

    # --- Base ---------------------------------------------------------------------------------------
    def emit(self, f, s):
        if f is None or f.f == "stdout":
            self.out.append(s)
        elif f.f == "stderr":
            self.err.append(s)
        else:
            f.f.write(s)

    def text(self, a):
        if a and isinstance(a[0], File):
            return a[0], "".join(show(x) for x in a[1:])
        return None, "".join(show(x) for x in a)

    def b_println(self, *a):
        f, s = self.text(a)
        self.emit(f, s + "\n")

    def b_print(self, *a):
        f, s = self.text(a)
        self.emit(f, s)

    def b_write(self, f, *s):
        if not isinstance(f, File) or not all(isinstance(x, str) for x in s):
            raise Unsupported("write of a %s" % ", ".join(map(typename, s)))
        for x in s:
            self.emit(f, x)
        return sum(map(len, s))

    def b_open(self, *a):
        fn = None
        if a and isinstance(a[0], Func):
            fn, a = a[0], a[1:]
        mode = a[1] if len(a) > 1 else "r"
        if mode not in ("w", "a", "r", "w+"):
            raise Unsupported("open mode")
        p = a[0] if os.path.isabs(a[0]) else os.path.join(self.cwd, a[0])
        f = File(open(p, mode))
        self.files.append(f.f)
        if fn is None:
            return f
        try:
            return self.call(fn, [f])
        finally:
            f.f.close()

    def b_close(self, f):
        f.f.close()

    def b_flush(self, f):
        pass

    def finish(self):
        for f in self.files:
            f.close()

    def b_exit(self, code=0):
        raise Exit(code)

    def b_error(self, *a):
        raise JuliaError("ErrorException: " + "".join(map(show, a)))

    def b_include(self, p):
        here = os.path.dirname(self.path)
        old = self.path
        q = os.path.join(here, p)
        if not os.path.exists(q):
            raise JuliaError("SystemError: opening file %s" % p)
        try:
            return self.run_file(q)
        finally:
            self.path = old

    def b_basename(self, s):
        return os.path.basename(s)

    def b_source_path(self):
        return self.path

    def dims(self, d):
        if len(d) == 1 and isinstance(d[0], tuple):
            d = d[0]
        d = [convert("Int64", x) if isinstance(x, bool) else x for x in d]
        if not all(isinstance(x, int) for x in d):
            return nomethod("zeros", *d)
        if any(x < 0 for x in d):
            raise JuliaError("ArgumentError: invalid Array dimensions")
        return tuple(d)

    def filled(self, a, v):
        et = "Float64"
        if a and isinstance(a[0], TypeRef):
            et, a = canon(a[0].name), a[1:]
        d = self.dims(a)
        if et not in ("Float64", "Int64", "Integer", "Bool", "Real", "Number"):
            raise Unsupported("zeros(%s)" % et)
        x = convert("Int64" if et in ("Integer", "Real", "Number") else et, v)
        r = np.empty(d, object, order="F")
        r[...] = x
        return Arr(r, et)

    def b_zeros(self, *a):
        return self.filled(a, 0)

    def b_ones(self, *a):
        return self.filled(a, 1)

    def b_fill(self, v, *d):
        r = np.empty(self.dims(d), object, order="F")
        r[...] = v
        return Arr(r, etype(v))

    def b_similar(self, a):
        r = np.empty(a.a.shape, object, order="F")
        r[...] = math.nan if a.et == "Float64" else 0x5bad5bad
        return Arr(r, a.et)

    def b_copy(self, a):
        if isinstance(a, Arr):
            return Arr(a.a.copy(order="F"), a.et)
        if isinstance(a, (Rng, tuple)) or num(a):
            return a
        return nomethod("copy", a)

    def b_deepcopy(self, a):
        if isinstance(a, Struct):
            r = Struct(a.ty)
            r.f = {k: self.b_deepcopy(v) for k, v in a.f.items()}
            return r
        return self.b_copy(a) if isinstance(a, Arr) else a

    def b_copyto_bang(self, d, s):
        for i, x in enumerate(self.iterate(s)):
            d.a[np.unravel_index(i, d.a.shape, order="F")] = convert(d.et, x)
        return d

    def b_fill_bang(self, d, v):
        for k in np.ndindex(*d.a.shape):
            d.a[k] = convert(d.et, v)
        return d

    def b_collect(self, v):
        if isinstance(v, tuple):
            return mkarr(list(v))
        return self.b_copy(toarr(v)) if isarr(v) else nomethod("collect", v)

    def b_length(self, v):
        if isinstance(v, (str, tuple)):
            return len(v)
        return len(self.iterate(v))

    def b_size(self, v, d=None):
        s = toarr(v).a.shape
        if d is None:
            return tuple(int(x) for x in s)
        return int(s[d - 1]) if d <= len(s) else 1

    def b_ndims(self, v):
        return toarr(v).a.ndim

    def b_eachindex(self, v):
        return Rng(1, 1, len(self.iterate(v)), None)

    def b_axes(self, v, d):
        return Rng(1, 1, self.b_size(v, d), None)

    def b_firstindex(self, v):
        return 1

    def b_lastindex(self, v):
        return len(self.iterate(v))

    def b_enumerate(self, v):
        a = np.empty(len(self.iterate(v)), object)
        for i, x in enumerate(self.iterate(v)):
            a[i] = (i + 1, x)
        return Arr(a, "Any")

    def b_zip(self, *v):
        t = list(zip(*[self.iterate(x) for x in v]))
        a = np.empty(len(t), object)
        for i, x in enumerate(t):
            a[i] = x
        return Arr(a, "Any")

    def b_range(self, start, stop=None, length=None, step=None, stop_=None):
        if step is not None:
            if length is not None:
                return Rng(start, step, length, "float" if isinstance(start, float) or isinstance(step, float) else None)
            return self.e_range(("range", ("lit", start), ("lit", step), ("lit", stop)), self.g)
        if length is None:
            if stop is None:
                raise JuliaError("ArgumentError: range needs a stop or a length")
            return self.e_range(("range", ("lit", start), None, ("lit", stop)), self.g)
        if stop is None:
            return Rng(start, 1, length, None)
        if not isinstance(length, int):
            return nomethod("range", start, stop, length)
        if length == 1 and start != stop:
            raise JuliaError("ArgumentError: range with different endpoints and length 1")
        return Rng(start, stop, length, "lin")

    def b_LinRange(self, a, b, n):
        return Rng(a, b, n, "lin")

    def reduce(self, op, v, init=None):
        r = init
        for x in self.iterate(v):
            r = x if r is None else scalar(op, r, x)
        return r

    def pick(self, a):
        """(f, iterable) or (iterable)."""
        if len(a) == 2 and (isinstance(a[0], Func) or callable(a[0])):
            return [self.call(a[0], [x]) for x in self.iterate(a[1])]
        if len(a) == 1:
            return self.iterate(a[0])
        raise Unsupported("reduction")

    def b_sum(self, *a):
        v = self.pick(a)
        if v and all(isinstance(x, float) for x in v):
            return float(np.sum(np.array(v)))
        r = 0
        for x in v:
            r = scalar("+", r, x)
        return r

    def b_prod(self, *a):
        r = 1
        for x in self.pick(a):
            r = scalar("*", r, x)
        return r

    def b_maximum(self, *a):
        return max(self.pick(a))

    def b_minimum(self, *a):
        return min(self.pick(a))

    def b_all(self, *a):
        return all(self.truth(x) for x in self.pick(a))

    def b_any(self, *a):
        return any(self.truth(x) for x in self.pick(a))

    def b_min(self, *a):
        r = a[0]
        for x in a[1:]:
            r = scalar("min", r, x)
        return r

    def b_max(self, *a):
        r = a[0]
        for x in a[1:]:
            r = scalar("max", r, x)
        return r

    def b_abs(self, x):
        return abs(x) if num(x) else nomethod("abs", x)

    def b_sign(self, x):
        return (float if isinstance(x, float) else int)((x > 0) - (x < 0))

    def b_float(self, x):
        if isarr(x):
            return broadcast(lambda y: convert("Float64", y), [x])
        return convert("Float64", x)

    def b_floor(self, *a):
        return self.rounded(math.floor, a)

    def b_ceil(self, *a):
        return self.rounded(math.ceil, a)

    def b_round(self, *a):
        return self.rounded(round, a)

    def b_trunc(self, *a):
        return self.rounded(math.trunc, a)

    def rounded(self, f, a):
        if len(a) == 2:
            return convert(a[0].name, float(f(a[1])))
        return a[0] if isinstance(a[0], int) else float(f(a[0]))

    def b_divrem(self, a, b):
        return (scalar("div", a, b), scalar("rem", a, b))

    def b_fldmod(self, a, b):
        return (scalar("fld", a, b), scalar("mod", a, b))

    def b_fldmod1(self, a, b):
        return (scalar("fld1", a, b), scalar("mod1", a, b))

    def b_ifelse(self, c, a, b):
        return a if self.truth(c) else b

    def b_isempty(self, v):
        return len(self.iterate(v)) == 0

    def b_dot(self, a, b):
        x, y = self.iterate(a), self.iterate(b)
        if len(x) != len(y):
            raise JuliaError("DimensionMismatch: dot")
        r = None
        for p, q in zip(x, y):
            t = scalar("*", p, q)
            r = t if r is None else scalar("+", r, t)
        return 0 if r is None else r

    def b_cumprod(self, a):
        out, r = [], 1
        for x in self.iterate(a):
            r = scalar("*", r, x)
            out.append(r)
        return mkarr(out)

    def b_cumsum(self, a):
        out, r = [], 0
        for x in self.iterate(a):
            r = scalar("+", r, x)
            out.append(r)
        return mkarr(out)

    def b_vcat(self, *a):
        out = []
        for v in a:
            out += flat(toarr(v)) if isarr(v) else [v]
        return mkarr(out)

    def b_reverse(self, a):
        return Arr(toarr(a).a[::-1].copy(), toarr(a).et)

    def b_circshift(self, a, k):
        if isinstance(k, int):
            k = (k,)
        k = tuple(self.iterate(k))
        return Arr(np.asfortranarray(np.roll(a.a, k, tuple(range(len(k))))), a.et)

    def b_reshape(self, a, *d):
        d = self.dims(d)
        a = toarr(a)
        if int(np.prod(d)) != a.a.size:
            raise JuliaError("DimensionMismatch: reshape")
        return Arr(np.asfortranarray(a.a).reshape(d, order="F"), a.et)

    def b_vec(self, a):
        return self.b_reshape(a, toarr(a).a.size)

    def b_push_bang(self, a, v):
        raise Unsupported("push!")

    def b_map(self, f, *a):
        ls = [self.iterate(x) for x in a]
        return mkarr([self.call(f, list(t)) for t in zip(*ls)])

    def b_string(self, *a):
        return "".join(map(show, a))

    def b_join(self, a, s=""):
        return s.join(show(x) for x in self.iterate(a))

    def b_ntuple(self, f, n):
        return tuple(self.call(f, [i + 1]) for i in range(n))

    def b_tuple(self, *a):
        return tuple(a)

    def b_isa(self, a, t):
        return isa(a, t)

    def b_typeof(self, a):
        raise Unsupported("typeof")

    def b_eltype(self, a):
        return TypeRef(toarr(a).et)

    def b_convert(self, t, v):
        if isa(v, t):
            return v
        return convert(t.name, v)

    def b_identity(self, x):
        return x

    def b_time(self):
        return 0.0

    def b_parse(self, t, s):
        if not isinstance(t, TypeRef) or not isinstance(s, str):
            return nomethod("parse", t, s)
        u = s.strip()
        if t.name in ("Int", "Int64"):
            if re.fullmatch(r"[-+]?\d+", u):
                v = int(u)
                if -(1 << 63) <= v < (1 << 63):
                    return v
                raise JuliaError("OverflowError")
            if re.fullmatch(r"[-+]?0[xob][0-9a-fA-F]+", u):
                raise Unsupported("number with a base")
            raise JuliaError("ArgumentError: invalid base 10 digit in %r" % s)
        if t.name == "Float64":
            try:
                return float(u)
            except ValueError:
                raise JuliaError("ArgumentError: cannot parse %r as Float64" % s) from None
        raise Unsupported("parse(%r)" % t)


class Missing:
    def __init__(self, name):
        self.name = name
