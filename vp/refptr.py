"""Reference model of JSON Pointer (RFC 6901) over token lists."""

from __future__ import annotations

import re

CANON = re.compile(r"0|[1-9][0-9]*")
CANON_SIGNED = re.compile(r"0|-?[1-9][0-9]*")
LIMIT = 2**53 - 1


class Missing(Exception):
    """RFC 6901 section 4 can't evaluate the pointer."""

    def __init__(self, why, depth):
        super().__init__(why)
        self.why = why
        self.depth = depth


def escape(token):
    return token.replace("~", "~0").replace("/", "~1")


def unescape(token):
    return token.replace("~1", "/").replace("~0", "~")


def encodable(text):
    try:
        text.encode("utf-8")
    except UnicodeEncodeError:
        return False
    return True


def percent(src, text):
    """`text` with some of its UTF-8 octets percent-encoded; decoding gives `text` back."""
    out = []
    rate = src.draw(4)
    for c in text:
        if c == "%" or (rate and src.bool(rate, 4)) or (c in "+ " and src.bool()):
            form = "%%%02x" if src.bool(1, 4) else "%%%02X"
            out.append("".join(form % b for b in c.encode("utf-8")))
        else:
            out.append(c)
    return "".join(out)


def escapes(src, text):
    r"""`text` with some characters spelled as \uXXXX; it must not have a backslash."""
    out = []
    rate = src.draw(3)
    for c in text:
        if rate and src.bool(rate, 4) and not 0xD800 <= ord(c) <= 0xDFFF:
            b = c.encode("utf-16-be")
            out.append("".join("\\u%02x%02x" % (b[i], b[i + 1]) for i in range(0, len(b), 2)))
        else:
            out.append(c)
    return "".join(out)


def spell(tokens):
    return "".join("/" + escape(str(t)) for t in tokens)


def split(text):
    return [] if text == "" else [unescape(t) for t in text[1:].split("/")]


def step(doc, token, depth=0):
    if isinstance(doc, dict):
        if token in doc:
            return doc[token]
        raise Missing("no such member", depth)
    if isinstance(doc, list):
        if token == "-":
            raise Missing("the nonexistent element", depth)
        if not CANON.fullmatch(token):
            raise Missing("not an index", depth)
        if int(token) >= len(doc):
            raise Missing("index out of range", depth)
        return doc[int(token)]
    raise Missing("token applied to a scalar", depth)


def resolve(doc, tokens):
    for i, t in enumerate(tokens):
        doc = step(doc, t, i)
    return doc


def extension(doc, tokens):
    """Does the pointer use one of the documented extensions where RFC 6901 fails?

    Negative indices, `#`/`~`-prefixed key and index tokens, integers beyond the limit.
    """
    cur = doc
    for i, t in enumerate(tokens):
        if CANON_SIGNED.fullmatch(t) and abs(int(t)) > LIMIT:
            return True
    for i, t in enumerate(tokens):
        try:
            cur = step(cur, t)
        except Missing:
            if isinstance(cur, list):
                return bool(re.fullmatch("-[1-9][0-9]*", t)) or t.startswith("#")
            if isinstance(cur, dict):
                return t.startswith(("#", "~"))
            return False
    return False


def walk(doc, loc):
    for p in loc:
        doc = doc[p]
    return doc
