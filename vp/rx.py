"""An independent matcher for the regular-expression dialect on which Python `re`
and I-Regexp (RFC 9485) agree.

parse(pattern) gives a tree, None if the pattern is malformed in both dialects, and
raises Outside if it uses anything the two treat differently (or might).
"""

from __future__ import annotations


class Outside(Exception):
    """The pattern (or subject) is outside the common dialect."""


class Malformed(Exception):
    pass


SPECIAL = set(".*+?{}()[]|\\^$")
# Single-character escapes with the same meaning in both dialects.
ESC = set(".*+?{}()[]|\\^$-")
ESC_CTRL = {"n": "\n", "r": "\r", "t": "\t"}


class _P:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def alt(self):
        out = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            out.append(self.seq())
        return ("alt", out) if len(out) > 1 else out[0]

    def seq(self):
        out = []
        while self.peek() not in ("", "|", ")"):
            out.append(self.piece())
        return ("seq", out)

    def piece(self):
        a = self.atom()
        c = self.peek()
        if c in ("*", "+", "?"):
            self.i += 1
            a = ("rep", a, 1 if c == "+" else 0, 1 if c == "?" else None)
        elif c == "{":
            j = self.s.find("}", self.i)
            if j < 0:
                raise Outside
            body = self.s[self.i + 1 : j]
            parts = body.split(",")
            if len(parts) > 2 or not all(p.isascii() and (p.isdigit() or p == "") for p in parts):
                raise Outside
            if not parts[0] or len(parts[0]) > 3 or len(parts[-1]) > 3:
                raise Outside
            lo = int(parts[0])
            hi = lo if len(parts) == 1 else (int(parts[1]) if parts[1] else None)
            if hi is not None and hi < lo:
                raise Malformed
            self.i = j + 1
            a = ("rep", a, lo, hi)
        if self.peek() in ("*", "+", "?", "{"):
            raise Outside  # lazy and possessive quantifiers
        return a

    def atom(self):
        c = self.peek()
        if c == "(":
            self.i += 1
            if self.peek() == "?":
                raise Outside
            a = self.alt()
            if self.peek() != ")":
                raise Malformed
            self.i += 1
            return a
        if c == ".":
            self.i += 1
            return ("dot",)
        if c == "[":
            return self.klass()
        if c == "\\":
            return ("chr", self.escape())
        if c in ("*", "+", "?"):
            raise Malformed
        if c in SPECIAL:  # { } ] ^ $
            raise Outside
        if ord(c) < 0x20:
            raise Outside
        self.i += 1
        return ("chr", c)

    def escape(self):
        self.i += 1
        c = self.peek()
        if c == "":
            raise Malformed
        self.i += 1
        if c in ESC:
            return c
        if c in ESC_CTRL:
            return ESC_CTRL[c]
        raise Outside

    def klass(self):
        self.i += 1
        neg = False
        if self.peek() == "^":
            neg = True
            self.i += 1
        items = []
        first = True
        while True:
            c = self.peek()
            if c == "":
                raise Malformed
            if c == "]":
                if first:
                    raise Outside
                self.i += 1
                break
            first = False
            lo = self.kchar()
            if self.peek() == "-" and self.s[self.i + 1 : self.i + 2] not in ("]", ""):
                self.i += 1
                hi = self.kchar()
                if ord(hi) < ord(lo):
                    raise Malformed
                items.append((lo, hi))
            else:
                items.append((lo, lo))
        return ("set", neg, items)

    def kchar(self):
        c = self.peek()
        if c == "\\":
            return self.escape()
        if c in ("[", "-", "^", "&", "|", "~") or ord(c) < 0x20:
            raise Outside
        self.i += 1
        return c


_CACHE = {}


def parse(pattern):
    try:
        return _CACHE[pattern]
    except KeyError:
        pass
    p = _P(pattern)
    try:
        r = p.alt()
        if p.i < len(pattern):  # an unbalanced closing parenthesis
            raise Malformed
    except Malformed:
        r = None
    if len(_CACHE) < 5000:
        _CACHE[pattern] = r
    return r


def _step(node, s, starts):
    """Set of end positions of matches of node starting at any of starts."""
    k = node[0]
    if k == "chr":
        return {i + 1 for i in starts if i < len(s) and s[i] == node[1]}
    if k == "dot":
        return {i + 1 for i in starts if i < len(s) and s[i] not in "\n\r"}
    if k == "set":
        _, neg, items = node
        return {
            i + 1
            for i in starts
            if i < len(s) and any(lo <= s[i] <= hi for lo, hi in items) != neg
        }
    if k == "seq":
        for n in node[1]:
            starts = _step(n, s, starts)
        return starts
    if k == "alt":
        out = set()
        for n in node[1]:
            out |= _step(n, s, starts)
        return out
    _, inner, lo, hi = node
    cur = starts
    for _ in range(lo):
        cur = _step(inner, s, cur)
    out = set(cur)
    n = lo
    while cur and (hi is None or n < hi):
        cur = _step(inner, s, cur) - out
        out |= cur
        n += 1
    return out


def has_dot(node):
    if node[0] == "dot":
        return True
    if node[0] in ("seq", "alt"):
        return any(has_dot(n) for n in node[1])
    if node[0] == "rep":
        return has_dot(node[1])
    return False


def _tree(pattern, s):
    t = parse(pattern)
    if t is not None and "\r" in s and has_dot(t):
        raise Outside  # `.` excludes \r in I-Regexp only
    return t


def fullmatch(pattern, s):
    t = _tree(pattern, s)
    return t is not None and len(s) in _step(t, s, {0})


def search(pattern, s):
    t = _tree(pattern, s)
    return t is not None and bool(_step(t, s, set(range(len(s) + 1))))
