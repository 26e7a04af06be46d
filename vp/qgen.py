"""Generation of queries as syntax trees, and rendering of trees to every spelling.

Trees (tuples):
  query     ("q", root, [segment...])          root in "$" "@" "^" "_"
  segment   ("c" | "d", [selector...])         child / descendant
  selector  ("n", name) ("i", index) ("s", a, b, c) ("w",) ("f", expr) ("k",)
  expr      ("or", l, r) ("and", l, r) ("not", e) ("cmp", op, l, r)
            ("ex", query) ("fn", name, [arg...])
  operand   ("lit", value) ("q", ...) ("fn", ...) ("key",) ("undef",)
            ("list", [value...]) ("re", pattern, flags)
  compound  ("comp", query, [(op, query)...])  op in "|" "&"
"""

from __future__ import annotations

import re

from . import jsongen

DEFAULT_TOKENS = {
    "root": "$", "self": "@", "key": "#", "context": "_", "keys": "~", "fake": "^",
    "union": "|", "inter": "&",
}

RESERVED = {
    "and", "or", "not", "in", "true", "True", "false", "False", "nil", "Nil", "null",
    "Null", "none", "None", "contains", "undefined", "missing",
}

RE_SHORTHAND = re.compile(
    "[A-Za-z_\u0080-\ud7ff\ue000-\U0010ffff][A-Za-z0-9_\u0080-\ud7ff\ue000-\U0010ffff]*"
)

MAXI = 2**53 - 1

CMP_OPS = ["==", "!=", "<", "<=", ">", ">="]

REGEXES = [
    "a", "ab", "a*", "a|b", "[ab]+", "(a|b)c?", ".", ".*", "a.c", "", "[^a]", "a{1,2}", "b{2}",
    "[a-c]*", "(ab)*", "x?y?", "a{0,}", "\\.", "[\\]a]", "é", "(a|)b", "((a))", "s[0-9]+", "[0-9]{4}",
    "a\\\\b", "1|0", "[A-Z]", "(a*)b", "\\(a\\)", "[.]", "\\n", "a+b", "ab?",
]
BAD_REGEXES = ["(", ")", "[", "*", "a{2,1}", "+a", "(a", "[b-a]"]
RE_FLAGS = ["", "i", "s", "is", "a", "m", "ims", "si", "ai", "aims", "sam"]


class Gen:
    """Query generator guided by a document."""

    def __init__(
        self, src, doc, pool, *, filters=False, ext=False, extfuncs=False,
        context=None, max_desc=2, fdepth=2, regexes=True, max_segs=4, keys_ok=True,
        bigint=False,
    ):
        self.src = src
        self.doc = doc
        self.pool = pool
        self.filters = filters
        self.ext = ext
        self.extfuncs = extfuncs
        self.context = context
        self.ndesc = max_desc
        self.fdepth = fdepth
        self.regexes = regexes
        self.max_segs = max_segs
        self.keys_ok = keys_ok
        self.bigint = bigint
        self.budget = 60

    # -- selectors -------------------------------------------------------

    def name(self, cur):
        s = self.src
        if isinstance(cur, dict) and cur and not s.bool(1, 5):
            return s.choice(list(cur))
        if s.bool(1, 8):
            return jsongen.gen_key(s)
        return s.choice(self.pool)

    def index(self, cur):
        s = self.src
        n = len(cur) if isinstance(cur, list) else 3
        k = s.draw(20)
        if k < 17:
            return s.int(0, 2 * n + 3) - n - 1 if n < 60 or s.bool() else s.int(0, n - 1)
        if k == 17:
            return s.choice([MAXI, -MAXI, 1000, -1000, 2**31, 2**32, -(2**31)])
        if isinstance(cur, dict):
            ks = [int(x) for x in cur if re.fullmatch("0|-?[1-9][0-9]{0,5}", x)]
            if ks:
                return s.choice(ks)
        return s.int(0, 2)

    def slice(self, cur):
        s = self.src
        n = len(cur) if isinstance(cur, list) else 3

        def bound():
            k = s.draw(10)
            if k < 4:
                return None
            if k < 9:
                return s.int(0, 2 * n + 4) - n - 2
            return s.choice([MAXI, -MAXI, 10**6, -(10**6), 2**31, 0])

        k = s.draw(12)
        if k < 5:
            step = None
        elif k < 11:
            step = s.choice([1, -1, 2, -2, 3, -3, 0])
        else:
            step = s.choice([MAXI, -MAXI, 100, -100, n or 1, -(n or 1)])
        return ("s", bound(), bound(), step)

    def selector(self, cur, depth):
        s = self.src
        self.budget -= 1
        if isinstance(cur, dict):
            w = [(10, "n"), (2, "i"), (1, "s"), (4, "w")]
        elif isinstance(cur, list):
            w = [(2, "n"), (7, "i"), (6, "s"), (4, "w")]
        else:
            w = [(4, "n"), (3, "i"), (3, "s"), (3, "w")]
        if self.filters and depth > 0 and self.budget > 0:
            w.append((8, "f"))
        if self.ext and self.keys_ok:
            w.append((2, "k"))
        k = s.weighted(w)
        if k == "n":
            return ("n", self.name(cur))
        if k == "i":
            return ("i", self.index(cur))
        if k == "s":
            return self.slice(cur)
        if k == "f":
            return ("f", self.logical(self.child(cur), depth - 1))
        return (k,)

    def child(self, cur):
        if isinstance(cur, dict) and cur:
            return self.src.choice(list(cur.values()))
        if isinstance(cur, list) and cur:
            return cur[self.src.draw(min(len(cur), 8))]
        return None

    def step(self, cur, sel):
        """A plausible value selected by sel from cur."""
        if sel[0] == "n":
            if isinstance(cur, dict):
                return cur.get(sel[1])
            return None
        if sel[0] == "i":
            if isinstance(cur, list) and -len(cur) <= sel[1] < len(cur):
                return cur[sel[1]]
            return None
        return self.child(cur)

    def segments(self, cur, depth, nmax, singular=False, lo=0):
        s = self.src
        segs = []
        n = s.count(lo, nmax, 2, 3)
        if not singular and depth == self.fdepth and s.bool(1, 60):
            n += s.int(3, 20)
        for _ in range(n):
            if singular:
                k = s.bool(1, 3) if not isinstance(cur, list) else not s.bool(1, 6)
                sel = ("i", self.index(cur)) if k else ("n", self.name(cur))
                segs.append(("c", [sel]))
                cur = self.step(cur, sel)
                continue
            kind = "c"
            if self.ndesc > 0 and s.bool(1, 6):
                kind = "d"
                self.ndesc -= 1
                for _ in range(s.int(0, 2)):
                    cur = self.child(cur)
            nsel = 1
            if s.bool(1, 5):
                nsel = s.int(2, 4)
                if s.bool(1, 20):
                    nsel = s.int(5, 25)
            sels = [self.selector(cur, depth) for _ in range(nsel)]
            segs.append((kind, sels))
            cur = self.step(cur, sels[0])
        return segs, cur

    def query(self, root="$"):
        if root == "^":
            cur = [self.doc]
        else:
            cur = self.doc
        segs, _ = self.segments(cur, self.fdepth, self.max_segs, lo=0 if self.src.bool(1, 30) else 1)
        return ("q", root, segs)

    # -- filters -----------------------------------------------------------

    def sub_query(self, cur, depth, singular):
        """A query inside a filter; cur is the candidate child."""
        s = self.src
        k = s.draw(12)
        root, at = "@", cur
        if k >= 9:
            root, at = "$", self.doc
        if self.ext:
            if k == 8 and self.context is not None:
                root, at = "_", self.context
            elif k == 11 and s.bool(1, 3):
                root, at = "^", [self.doc]
        lo = 0
        if root != "@" and not s.bool(1, 6):
            lo = 1
        elif not s.bool(1, 4):
            lo = 1
        saved = self.budget
        segs, end = self.segments(
            at, depth if s.bool() else 0, 3, singular=singular, lo=lo
        )
        self.budget = min(self.budget, saved - 1)
        if root == "^" and not segs:
            segs = [("c", [("i", 0)])]
        return ("q", root, segs), end

    def logical(self, cur, depth, lvl=2):
        s = self.src
        self.budget -= 1
        k = s.draw(12)
        if lvl == 2 and self.budget > 0 and s.bool(1, 30):
            return self.chain(cur, depth)
        if lvl > 0 and self.budget > 0:
            if k == 9:
                return ("not", self.logical(cur, depth, lvl - 1))
            if k == 10:
                return ("and", self.logical(cur, depth, lvl - 1), self.logical(cur, depth, lvl - 1))
            if k == 11:
                return ("or", self.logical(cur, depth, lvl - 1), self.logical(cur, depth, lvl - 1))
        if k < 3:
            return ("ex", self.sub_query(cur, depth, False)[0])
        if k < 4 and self.regexes:
            return self.regex_fn(cur, depth)
        if self.ext and k == 4:
            return self.ext_test(cur, depth)
        return self.comparison(cur, depth)

    def chain(self, cur, depth):
        """Many operands joined by one operator or by both, leaning either way."""
        s = self.src
        ops = s.choice([["and"], ["or"], ["and", "or"]])
        e = self.logical(cur, 0, 1)
        for _ in range(s.int(2, 9)):
            x = self.logical(cur, 0, s.draw(2))
            e = (s.choice(ops), e, x) if s.bool(3, 4) else (s.choice(ops), x, e)
            if s.bool(1, 8):
                e = ("not", e)
        return e

    def regex_fn(self, cur, depth):
        s = self.src
        arg, end = self.value_arg(cur, depth, strings=True)
        j = s.draw(10)
        if j < 7:
            pat = ("lit", self.regex())
        elif j < 9:
            pat, _ = self.value_arg(cur, depth, strings=True)
        else:
            pat = ("lit", s.choice([1, None, True, "a"]))
        return ("fn", s.choice(["match", "search"]), [arg, pat])

    def regex(self):
        s = self.src
        if s.bool(1, 12):
            return s.choice(BAD_REGEXES)
        r = s.choice(REGEXES)
        if s.bool(1, 4):
            r += s.choice(REGEXES)
        if s.bool(1, 10):
            lits = [k for k in self.pool if re.fullmatch("[A-Za-z0-9_ é]*", k)]
            if lits:
                r = s.choice(lits) + r
        return r

    def value_arg(self, cur, depth, strings=False):
        """A ValueType function argument, and a plausible value."""
        s = self.src
        k = s.draw(10)
        if k < 6:
            return self.sub_query(cur, depth, True)
        if k < 8:
            v = jsongen.gen_string(s, self.pool) if strings and not s.bool(1, 4) else self.literal(cur)
            return ("lit", v), v
        if self.ext and k == 8:
            return ("key",), None
        return self.value_fn(cur, depth), None

    def value_fn(self, cur, depth):
        s = self.src
        k = s.draw(3)
        if k == 0:
            a, _ = self.value_arg(cur, depth - 1) if depth > 0 else self.sub_query(cur, 0, True)
            return ("fn", "length", [a])
        if self.extfuncs and s.bool(1, 6):
            return ("fn", s.choice(["typeof", "type"]), [self.sub_query(cur, depth, False)[0]])
        return ("fn", "count" if k == 1 else "value", [self.sub_query(cur, depth, False)[0]])

    def literal(self, near):
        s = self.src
        k = s.draw(10)
        if k < 4 and not isinstance(near, (dict, list)) :
            return near
        if k < 6 and isinstance(near, (int, float)) and not isinstance(near, bool):
            return s.choice([near - 1, near + 1, -near]) if abs(near) < 2**52 else near
        if k < 7 and isinstance(near, str):
            return s.choice([near + "a", near[:-1], near.upper(), near.lower()])
        if k == 9 and isinstance(near, (dict, list, str)):
            return len(near)
        if self.bigint and s.bool(1, 12):
            return s.choice([2**53, 2**53 + 1, 10**16, 10**22, 1e16, 1e22, 1e300, 123456789012345678901])
        return jsongen.gen_scalar(s, self.pool)

    def operand(self, cur, depth, near=None, lit=True):
        s = self.src
        k = s.draw(12)
        if k < 4 and lit:
            v = self.literal(near)
            return ("lit", v), v
        if k < 9:
            return self.sub_query(cur, depth, True)
        if self.ext and k == 9:
            return s.choice([("key",), ("undef",)]), None
        if k < 11:
            return self.value_fn(cur, depth), s.choice([0, 1, 2, 3])
        return self.sub_query(cur, depth, True)

    def comparison(self, cur, depth):
        s = self.src
        op = s.choice(CMP_OPS) if s.bool(2, 3) else "=="
        left, near = self.operand(cur, depth, cur, lit=s.bool(1, 4))
        right, _ = self.operand(cur, depth, near)
        if s.bool(1, 4):
            left, right = right, left
        return ("cmp", op, left, right)

    def ext_test(self, cur, depth):
        s = self.src
        k = s.draw(8)
        q, end = self.sub_query(cur, depth, True)
        if k == 0:
            return ("cmp", "=~", q if s.bool(4, 5) else ("key",), ("re", self.re_lit(), s.choice(RE_FLAGS)))
        if k < 3:  # member of list literal
            items = [self.list_item(end) for _ in range(s.int(0, 3) if not s.bool(1, 12) else s.int(4, 14))]
            if s.bool():
                return ("cmp", "in", q, ("list", items))
            return ("cmp", "contains", ("list", items), q)
        if k < 5:  # member of a value
            r, rv = self.sub_query(cur, depth, True)
            if s.bool():
                left = ("lit", self.member_of(rv)) if s.bool() else (q if s.bool(2, 3) else ("key",))
                return ("cmp", "in", left, r)
            right = ("lit", self.member_of(rv)) if s.bool() else (q if s.bool(2, 3) else ("key",))
            return ("cmp", "contains", r, right)
        if k == 5:
            return ("cmp", s.choice(["==", "!="]), q, ("undef",))
        if k == 6:
            return ("cmp", s.choice(["==", "!=", "<", ">="]), ("key",), ("lit", self.key_lit(cur)))
        if self.extfuncs and s.bool():
            t = s.choice(["string", "number", "array", "object", "null", "boolean", "undefined", "int", "float", "list", "str"])
            return ("fn", s.choice(["isinstance", "is"]), [self.sub_query(cur, depth, False)[0], ("lit", t)])
        a = self.src.choice(jsongen.STRINGS)
        b = self.src.choice(jsongen.STRINGS)
        return ("cmp", s.choice(["in", "contains"]), ("lit", a), ("lit", b))

    def key_lit(self, cur):
        s = self.src
        if s.bool():
            return s.int(0, 3)
        return s.choice(self.pool)

    def list_item(self, near):
        v = self.literal(near)
        return v

    def member_of(self, v):
        s = self.src
        if s.bool(1, 4) or v is None or v == [] or v == {} or v == "":
            return jsongen.gen_scalar(s, self.pool)
        if isinstance(v, dict):
            return s.choice(list(v))
        if isinstance(v, list):
            x = s.choice(v[:20])
            return x if not isinstance(x, (dict, list)) else 1
        if isinstance(v, str):
            i = s.draw(len(v))
            return v[i : i + s.int(0, 3)]
        return jsongen.gen_scalar(s, self.pool)

    def re_lit(self):
        s = self.src
        for _ in range(3):
            r = s.choice(REGEXES)
            if r:
                return r
        return "a"


# -- rendering -----------------------------------------------------------------

BLANKS = [" ", "\n", "\t", "\r", "  ", " \n\t\r "]
NULLS = ["null", "nil", "none", "Null", "Nil", "None"]


class Render:
    """Spells a tree as text, choosing among the spellings the grammar allows."""

    def __init__(self, src=None, *, ext=False, tokens=None, bare=None, blank=None):
        self.src = src
        self.ext = ext
        self.bare = ext if bare is None else bare
        self.t = tokens or DEFAULT_TOKENS
        if src is None:
            self.rate = 0
            self.esc = 0
        else:
            self.rate = src.choice([0, 0, 1, 4]) if blank is None else blank
            self.esc = src.choice([0, 0, 1, 3])

    def b(self):
        if self.rate and self.src.bool(self.rate, 8):
            return self.src.choice(BLANKS)
        return ""

    def pick(self, options):
        return options[0] if self.src is None else self.src.choice(options)

    def flip(self, num=1, den=2):
        return self.src is not None and self.src.bool(num, den)

    def string(self, v):
        quote = self.pick(["'", '"'])
        out = []
        for ch in v:
            o = ord(ch)
            if ch == quote:
                out.append("\\" + ch)
            elif ch == "\\":
                out.append("\\\\" if not (self.esc and self.src.bool(self.esc, 8)) else "\\u005c")
            elif o < 0x20:
                named = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o)
                if named and not (self.esc and self.src.bool(self.esc, 8)):
                    out.append(named)
                else:
                    out.append(self.u(o))
            elif self.esc and self.src.bool(self.esc, 12):
                if ch == "/":
                    out.append("\\/")
                elif o > 0xFFFF:
                    o -= 0x10000
                    out.append(self.u(0xD800 + (o >> 10)) + self.u(0xDC00 + (o & 0x3FF)))
                else:
                    out.append(self.u(o))
            else:
                out.append(ch)
        return quote + "".join(out) + quote

    def u(self, o):
        h = f"{o:04x}"
        return "\\u" + (h.upper() if self.flip() else h)

    def number(self, v):
        if isinstance(v, int):
            opts = [str(v)]
            if abs(v) < 2**53:
                opts += [f"{v}.0", f"{v}e0", f"{v}E+0", f"{v}.00e-0", f"{v}0e-1", f"{v}E00"]
                if v == 0:
                    opts += ["-0", "-0.0", "0e5", "0E-3", "-0e1"]
                elif v % 10 == 0:
                    opts += [f"{v // 10}e1", f"{v // 10}E+1", f"{v // 10}.0e1", f"{v // 10}e01"]
        else:
            r = repr(v)
            opts = [r]
            if "e" not in r:
                opts += [r + "0", r + "e0", r + "E-0"]
                sign = "-" if r.startswith("-") else ""
                whole, frac = r.lstrip("-").split(".")
                if whole == "0" and frac.strip("0"):
                    digits = frac.lstrip("0")
                    opts.append(f"{sign}{digits}e-{len(frac)}")
            else:
                opts.append(r.replace("e", "E"))
        return self.pick(opts) if self.flip() else opts[0]

    def lit(self, v):
        if v is None:
            return self.pick(NULLS) if self.ext else "null"
        if v is True:
            return self.pick(["true", "True"]) if self.ext else "true"
        if v is False:
            return self.pick(["false", "False"]) if self.ext else "false"
        if isinstance(v, str):
            return self.string(v)
        return self.number(v)

    # -- queries -------------------------------------------------------------

    def name_ok(self, name):
        return RE_SHORTHAND.fullmatch(name) is not None

    def bare_ok(self, name):
        return (
            self.bare
            and RE_SHORTHAND.fullmatch(name) is not None
            and name not in RESERVED
            and name != "_"
            and not self.clash(name)
        )

    def clash(self, name):
        """Would an identifier token be found inside this name?"""
        return any(tok and tok in name for tok in self.t.values() if tok != "_")

    def selector(self, sel):
        k = sel[0]
        if k == "n":
            if self.bare_ok(sel[1]) and self.flip():
                return sel[1]
            return self.string(sel[1])
        if k == "i":
            return str(sel[1])
        if k == "w":
            return "*"
        if k == "k":
            return self.t["keys"]
        if k == "s":
            _, a, c, step = sel
            out = ""
            if a is not None:
                out += str(a) + self.b()
            out += ":" + self.b()
            if c is not None:
                out += str(c) + self.b()
            if step is not None:
                out += ":" + self.b() + str(step)
            elif self.flip(1, 6):
                out += ":"
            return out
        if k == "f":
            return "?" + self.b() + self.expr(sel[1], 0)
        raise AssertionError(sel)

    def bracketed(self, sels):
        return (
            "[" + self.b()
            + (self.b() + "," + self.b()).join(self.selector(s) for s in sels)
            + self.b() + "]"
        )

    def sep(self):
        return self.b() + "," + self.b()

    def segment(self, seg, singular=False):
        kind, sels = seg
        dots = ".." if kind == "d" else "."
        if len(sels) == 1:
            sel = sels[0]
            short = None
            if sel[0] == "n" and self.name_ok(sel[1]) and not self.clash(sel[1]):
                short = sel[1]
            elif sel[0] == "w":
                short = "*"
            elif sel[0] == "k":
                short = self.t["keys"]
            if short is not None and (self.src is None or self.src.bool(2, 3)):
                return dots + short
            if singular:
                return (".." if kind == "d" else "") + "[" + self.selector(sel) + "]"
        return (".." if kind == "d" else "") + self.bracketed(sels)

    def query(self, q, singular=False, top=False):
        _, root, segs = q
        out = {"$": self.t["root"], "@": self.t["self"], "^": self.t["fake"], "_": self.t["context"]}[root]
        if top and root == "$" and self.bare and segs and self.flip(1, 3):
            first = segs[0]
            text = self.segment(first)
            if first[0] == "c" and text.startswith("."):
                body = text[1:]
                if body not in RESERVED and body != "_" and self.flip(2, 3):
                    text = body
            out = text
            segs = segs[1:]
        for seg in segs:
            out += self.b() + self.segment(seg, singular)
        return out

    def top(self, q):
        if q[0] == "comp":
            out = self.query(q[1], top=True)
            for op, p in q[2]:
                tok = self.t["union"] if op == "|" else self.t["inter"]
                out += self.pick([" ", "", "\n"]) + tok + self.pick([" ", "", "\t"]) + self.query(p, top=True)
            return out
        return self.query(q, top=True)

    # -- expressions ---------------------------------------------------------

    def paren(self, e):
        return "(" + self.b() + self.expr(e, 0) + self.b() + ")"

    def expr(self, e, prec):
        """prec: 0 or, 1 and, 2 operand of not."""
        k = e[0]
        if self.flip(1, 14):
            return self.paren(e)
        if k == "or":
            if prec > 0:
                return self.paren(e)
            return self.expr(e[1], 0) + self.oper("||", "or") + self.expr(e[2], 0)
        if k == "and":
            if prec > 1:
                return self.paren(e)
            return self.expr(e[1], 1) + self.oper("&&", "and") + self.expr(e[2], 1)
        if k == "not":
            if prec > 1:
                return self.paren(e)
            inner = e[1]
            if inner[0] in ("ex", "fn") and not self.flip(1, 8):
                body = self.expr(inner, 2)
            else:
                body = self.paren(inner)
            if self.ext and self.flip(1, 3):
                sp = self.pick([" ", "\t", "  "]) if not body.startswith("(") or self.flip() else ""
                return "not" + sp + body
            return "!" + self.b() + body
        if k == "cmp":
            if prec > 1:
                return self.paren(e)
            op = e[1]
            if op in ("in", "contains"):
                return self.comparable(e[2]) + self.pick([" ", "\n"]) + op + self.pick([" ", "\t"]) + self.comparable(e[3])
            if op == "!=" and self.ext and self.flip(1, 3):
                op = "<>"
            return self.comparable(e[2]) + self.b() + op + self.b() + self.comparable(e[3])
        if k == "ex":
            return self.query(e[1])
        if k == "fn":
            return self.fn(e)
        raise AssertionError(e)

    def oper(self, sym, word):
        if self.ext and self.flip(1, 3):
            return self.pick([" ", "\n", "  "]) + word + self.pick([" ", "\t", "  "])
        return self.b() + sym + self.b()

    def fn(self, e):
        return e[1] + "(" + self.b() + self.sep().join(self.arg(a) for a in e[2]) + self.b() + ")"

    def arg(self, a):
        if a[0] in ("or", "and", "not", "cmp", "ex"):
            return self.expr(a, 0)
        if a[0] == "q":
            return self.query(a)
        return self.comparable(a)

    def comparable(self, c):
        k = c[0]
        if k == "lit":
            return self.lit(c[1])
        if k == "q":
            return self.query(c, singular=True)
        if k == "fn":
            return self.fn(c)
        if k == "key":
            return self.t["key"]
        if k == "undef":
            return self.pick(["undefined", "missing"])
        if k == "list":
            return "[" + self.b() + self.sep().join(self.lit(v) for v in c[1]) + self.b() + "]"
        if k == "re":
            return "/" + c[1] + "/" + c[2]
        raise AssertionError(c)


def features(q, out=None):
    """Labels of the constructs a tree contains."""
    if out is None:
        out = set()
    if isinstance(q, tuple):
        tag = q[0]
        if tag == "comp":
            out.add("compound")
            features(q[1], out)
            for op, p in q[2]:
                out.add(op)
                features(p, out)
            return out
        if tag == "q":
            out.add("root" + q[1])
            for kind, sels in q[2]:
                out.add("child" if kind == "c" else "desc")
                if len(sels) > 1:
                    out.add("list")
                for s in sels:
                    out.add("sel-" + s[0])
                    if s[0] == "f":
                        features(s[1], out)
            return out
        if tag == "cmp":
            out.add(q[1])
        elif tag == "fn":
            out.add(q[1] + "()")
            for a in q[2]:
                features(a, out)
            return out
        else:
            out.add(tag)
        for x in q[1:]:
            features(x, out)
    return out
