"""Reference evaluation of query trees (see qgen): RFC 9535 plus the documented
extensions, written from the RFC text and the documentation.

A node is (location, value); a location is a tuple of names and indices.  The keys
selector gives nodes whose location ends in ("~", name).
"""

from __future__ import annotations

import re

from . import rx
from .engine import Discard
from .jsongen import json_eq

MAX_NODES = 20000


class _Nothing:
    def __repr__(self):
        return "Nothing"


NOTHING = _Nothing()


class Budget:
    def __init__(self):
        self.n = MAX_NODES

    def use(self, k):
        self.n -= k
        if self.n < 0:
            raise Discard


class Env:
    __slots__ = ("doc", "context", "budget")

    def __init__(self, doc, context=None):
        self.doc = doc
        self.context = {} if context is None else context
        self.budget = Budget()


def find(q, doc, context=None):
    """The nodelist of a query (tree), as a list of (location, value)."""
    env = Env(doc, context)
    if q[0] == "comp":
        nodes = run(env, q[1], None)
        for op, p in q[2]:
            right = run(env, p, None)
            if op == "|":
                nodes = nodes + right
            else:
                env.budget.use(len(nodes) * len(right))
                nodes = [n for n in nodes if any(json_eq(n[1], r[1]) for r in right)]
        return nodes
    return run(env, q, None)


def run(env, q, current):
    root = q[1]
    if root == "$":
        nodes = [((), env.doc)]
    elif root == "^":
        nodes = [((), [env.doc])]
    elif root == "@":
        nodes = [((), current)]
    else:
        nodes = [((), env.context)]
    for kind, sels in q[2]:
        if kind == "d":
            nodes = [d for n in nodes for d in descend(env, n)]
        out = []
        for n in nodes:
            for s in sels:
                select(env, s, n, out)
        env.budget.use(len(out) + len(nodes))
        nodes = out
    return nodes


def descend(env, node):
    loc, v = node
    env.budget.use(1)
    yield node
    if isinstance(v, dict):
        for k, x in v.items():
            yield from descend(env, (loc + (k,), x))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from descend(env, (loc + (i,), x))


def slice_indices(a, b, step, n):
    """RFC 9535 section 2.3.4.2.2."""
    if step is None:
        step = 1
    if step == 0:
        return []

    def norm(i):
        return i if i >= 0 else n + i

    if step > 0:
        start, end = (0 if a is None else a), (n if b is None else b)
    else:
        start, end = (n - 1 if a is None else a), (-n - 1 if b is None else b)
    s, e = norm(start), norm(end)
    out = []
    if step > 0:
        lower, upper = min(max(s, 0), n), min(max(e, 0), n)
        i = lower
        while i < upper:
            out.append(i)
            i += step
    else:
        upper, lower = min(max(s, -1), n - 1), min(max(e, -1), n - 1)
        i = upper
        while i > lower:
            out.append(i)
            i += step
    return out


def select(env, sel, node, out):
    loc, v = node
    k = sel[0]
    if k == "n":
        if isinstance(v, dict) and sel[1] in v:
            out.append((loc + (sel[1],), v[sel[1]]))
    elif k == "i":
        i = sel[1]
        if isinstance(v, list):
            j = i if i >= 0 else len(v) + i
            if 0 <= j < len(v):
                out.append((loc + (j,), v[j]))
        elif isinstance(v, dict) and str(i) in v:
            out.append((loc + (str(i),), v[str(i)]))
    elif k == "s":
        if isinstance(v, list):
            for j in slice_indices(sel[1], sel[2], sel[3], len(v)):
                out.append((loc + (j,), v[j]))
    elif k == "w":
        for key, x in children(v):
            out.append((loc + (key,), x))
    elif k == "f":
        for key, x in children(v):
            env.budget.use(1)
            if truth(env, sel[1], x, key):
                out.append((loc + (key,), x))
    elif k == "k":
        if isinstance(v, dict):
            for key in v:
                out.append((loc + (("~", key),), key))
    else:
        raise AssertionError(sel)


def children(v):
    if isinstance(v, dict):
        return list(v.items())
    if isinstance(v, list):
        return list(enumerate(v))
    return []


def truth(env, e, cur, key):
    k = e[0]
    if k == "or":
        return truth(env, e[1], cur, key) or truth(env, e[2], cur, key)
    if k == "and":
        return truth(env, e[1], cur, key) and truth(env, e[2], cur, key)
    if k == "not":
        return not truth(env, e[1], cur, key)
    if k == "ex":
        return len(run(env, e[1], cur)) > 0
    if k == "cmp":
        return compare(env, e, cur, key)
    if k == "fn":
        r = call(env, e, cur, key)
        assert isinstance(r, bool), e
        return r
    raise AssertionError(e)


def operand(env, c, cur, key):
    k = c[0]
    if k == "lit":
        return c[1]
    if k == "q":
        nodes = run(env, c, cur)
        if not nodes:
            return NOTHING
        assert len(nodes) == 1, c
        return nodes[0][1]
    if k == "fn":
        return call(env, c, cur, key)
    if k == "key":
        return NOTHING if key is None else key
    if k == "undef":
        return NOTHING
    if k == "list":
        return list(c[1])
    raise AssertionError(c)


def eq(a, b):
    if a is NOTHING or b is NOTHING:
        return a is b
    return json_eq(a, b)


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def lt(a, b):
    if isnum(a) and isnum(b):
        return a < b
    if isinstance(a, str) and isinstance(b, str):
        return [ord(x) for x in a] < [ord(x) for x in b]
    return False


PYFLAGS = {"a": re.A, "i": re.I, "m": re.M, "s": re.S}


def compare(env, e, cur, key):
    op = e[1]
    a = operand(env, e[2], cur, key)
    if op == "=~":
        if not isinstance(a, str):
            return False
        _, pat, flags = e[3]
        f = 0
        for ch in flags:
            f |= PYFLAGS[ch]
        return re.compile(pat, f).fullmatch(a) is not None
    b = operand(env, e[3], cur, key)
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return not eq(a, b)
    if op == "<":
        return lt(a, b)
    if op == ">":
        return lt(b, a)
    if op == "<=":
        return lt(a, b) or eq(a, b)
    if op == ">=":
        return lt(b, a) or eq(a, b)
    if op == "contains":
        a, b = b, a
    # a in b
    if a is NOTHING or b is NOTHING:
        return False
    if isinstance(b, str):
        return isinstance(a, str) and a in b
    if isinstance(b, dict):
        return isinstance(a, str) and a in b
    if isinstance(b, list):
        return any(json_eq(a, x) for x in b)
    return False


def call(env, e, cur, key):
    name, args = e[1], e[2]
    if name in ("count", "value"):
        nodes = run(env, args[0], cur)
        if name == "count":
            return len(nodes)
        return nodes[0][1] if len(nodes) == 1 else NOTHING
    if name == "length":
        v = operand(env, args[0], cur, key)
        if isinstance(v, (str, list, dict)):
            return len(v)
        return NOTHING
    if name in ("match", "search"):
        s = operand(env, args[0], cur, key)
        p = operand(env, args[1], cur, key)
        if not isinstance(s, str) or not isinstance(p, str):
            return False
        try:
            return rx.fullmatch(p, s) if name == "match" else rx.search(p, s)
        except rx.Outside:
            raise Discard from None
    raise AssertionError(e)


def norm_path(loc, root="$"):
    """RFC 9535 section 2.7 normalized path."""
    out = [root]
    for p in loc:
        if isinstance(p, int):
            out.append(f"[{p}]")
        else:
            out.append("['" + "".join(_norm_char(c) for c in p) + "']")
    return "".join(out)


def _norm_char(c):
    o = ord(c)
    if c == "'":
        return "\\'"
    if c == "\\":
        return "\\\\"
    if o < 0x20:
        return {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o) or f"\\u{o:04x}"
    return c


RE_NORM = re.compile(
    r"\$(?:\[(?:(?:0|[1-9][0-9]*)|'(?:[ -&(-\[\]-\ud7ff\ue000-\U0010ffff]"
    r"|\\[bfnrt'\\]|\\u00(?:0[0-7be-f]|1[0-9a-f]))*')\])*"
)


def is_normalized(path):
    return RE_NORM.fullmatch(path) is not None
