"""Generation of JSON documents, and helpers to compare and serialise them."""

from __future__ import annotations

import json
import math
import re
import struct

SIMPLE = ["a", "b", "c", "d", "x", "key", "foo", "A", "ab"]
DIGITS = ["0", "1", "2", "3", "10", "7", "12"]
LOOKALIKE = [
    "+1", " 1", "1 ", "1_0", "01", "00", "-0", "-1", "-2", "+0", "\uff11", "\u0661",
    "1.0", "1e0", "0x1", "--1", "- 1", "\u00b2", "1\n", "\t1", "0_1", "-01",
    "9007199254740991", "-9007199254740991", "9007199254740990",
]
POINTERY = ["", "/", "~", "~0", "~1", "~01", "~10", "a/b", "m~n", "//", "~~", "/0", "-", "--", "-a", "%20", "%2F", "c%d"]
HASHY = ["#", "#a", "#0", "#1", "~a", "#b", "##", "~~a", "#x", "#-1", "# 1"]
QUOTES = ["'", '"', "''", '""', "it's", 'a"b', "'\"", "\\", "\\\\", "a\\", "\\'", '\\"', "'\\", "i\\j", "\\n", "\\u0041", "\\\\'"]
CONTROL = ["\n", "\t", "\r", "\x00", "\x01", "\x1f", "\x0b", "\x08", "\x0c", "a\nb", "\x7f", "\x80"]
UNI = ["é", "ü", "☺", "日本", "\u2028", "\u2029", "\ufeff", "\u00a0", "İ", "ß", "e\u0301", "\u0080", "\ud7ff", "\ue000", "\uffff", "·"]
NONBMP = ["😀", "𝒳", "\U0010ffff", "\U00010000", "a😀", "😀b"]
RESERVED = [
    "and", "or", "not", "in", "true", "false", "null", "nil", "none", "contains",
    "undefined", "missing", "True", "False", "None", "Nil", "Null", "length", "count",
    "value", "match", "search", "or1", "in_", "not-x", "android", "nullable", "trueish", "and-b", "inner",
    "true·",
]
ODD = [
    "_", "_x", "__", "_1", "$", "@", "*", ".", "..", "[", "]", "$.a", "a b", " ", "  a", "a.b",
    "a-b", "-", ":", "?", ",", "()", "&", "|", "^", "=", "1a", "a1", "a[0]", "0:1", "&&", "//",
    "{", "}", "[]", "A B", "a,b", "constructor", "__proto__",
]

CATEGORIES = [
    (30, SIMPLE), (8, DIGITS), (7, LOOKALIKE), (7, POINTERY), (5, HASHY), (8, QUOTES),
    (5, CONTROL), (6, UNI), (4, NONBMP), (7, RESERVED), (8, ODD),
]

CHARS = "ab01~/\\'\"#-_ .$@*[]é\u0000\n\t\u2028😀\x7f:?&|"


# Small alphabets over which escapes, signs and prefixes run into each other.
DENSE = ["~/01", "\\'\"n", "-01+", "#~a0", "\\u0041", "a\U0001f600-1", "\\/~1", " -1\n"]


def any_char(src):
    """Any Unicode character but a surrogate, in planes and blocks of all sizes."""
    k = src.draw(6)
    if k == 0:
        return chr(src.draw(0x80))
    if k == 1:
        return chr(0x80 + src.draw(0x780))
    if k == 2:
        return chr(0x2000 + src.draw(0x100))
    if k == 3:
        return chr(0x10000 + src.draw(0x100000))
    if k == 4:
        return chr(0xE000 + src.draw(0x2000))
    return chr(0x800 + src.draw(0xD000))


# Names that spell integers beyond +-(2^53-1) can't be addressed by pointers (known findings), so that only the
# checks that have nothing to do with pointers ask for them.
BIG_INT_NAMES = False
RE_BIG_INT = re.compile("-?[1-9][0-9]{14,}")


def long_text(src, part):
    """A name or string of many characters, of which two tend to differ late."""
    n = src.choice([9, 12, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 80, 100, 127, 128, 129, 255, 256, 257, 300])
    text = (part + src.choice(["", "a", "b", "ab", "-", "é"])) * (n // max(1, len(part)) + 1)
    text = text[: n - src.draw(2)] + src.choice(["", "x", "y", part])
    if not BIG_INT_NAMES and RE_BIG_INT.fullmatch(text):
        text += "x"
    return text or "a" * n


UNITS = ["/", "~", "~1", "~0", "a/", "/~", "~01", "'", "\\", '"', " ", "é", "😀", "'\\", "%2F", "%", "\\u0041", "\t", ".", "..", "[", "$"]


def repeated(src):
    """A name with many occurrences of something that has to be escaped somewhere."""
    return src.choice(["", "", "a"]) + src.choice(UNITS) * src.int(1, 14) + src.choice(["", "", "b"])


def gen_key(src):
    k = src.draw(42)
    if k < 2:
        return "".join(src.choice(CHARS) for _ in range(src.int(1, 5)))
    if k < 3:
        dense = src.choice(DENSE)
        return "".join(src.choice(dense) for _ in range(src.int(2, 8)))
    if k < 4:
        return src.choice(["", "a", "1"]) + any_char(src) + src.choice(["", "b", any_char(src)])
    if k < 5:
        if src.bool():
            return long_text(src, src.choice(src.weighted(CATEGORIES)))
        if src.bool():
            return repeated(src)
    return src.choice(src.weighted(CATEGORIES))


def gen_pool(src, lo=2, hi=5):
    """A small pool of member names for one case."""
    return [gen_key(src) for _ in range(src.int(lo, hi))]


INTS = [0, 1, 2, -1, 3, 10, 7, 100, -2, 255, 2**31, -(2**31), 2**53 - 1, -(2**53) + 1]
FLOATS = [0.5, 1.0, 0.0, -1.0, 1.5, 2.0, -0.5, 10.0, 1e-7, 1e15, 3.25, 100.0, -0.0]
STRINGS = ["", "a", "b", "ab", "1", "0", "true", "null", "abc", "A", "é", "😀", "a\n", " ", "01", "aa", "ba", "-1"]


def gen_float(src):
    """A finite double of any magnitude, mostly with all its digits."""
    while True:
        bits = src.draw(2**32) << 32 | src.draw(2**32)
        if src.bool():  # a moderate exponent
            bits = bits & ~(0x7FF << 52) | (1023 - 40 + src.draw(100)) << 52
        f = struct.unpack(">d", bits.to_bytes(8, "big"))[0]
        if math.isfinite(f):
            return f


def gen_string(src, pool):
    k = src.draw(10)
    if k < 6 or not pool:
        return src.choice(STRINGS)
    if k < 9:
        return src.choice(pool)
    if src.bool(1, 6):
        return long_text(src, src.choice(STRINGS))
    return "".join(src.choice(CHARS) for _ in range(src.int(0, 6)))


def gen_scalar(src, pool):
    k = src.draw(14)
    if k < 4:
        return src.choice(INTS)
    if k < 6:
        return src.choice(FLOATS) if src.draw(8) else gen_float(src)
    if k < 7:
        return True
    if k < 8:
        return False
    if k < 9:
        return None
    return gen_string(src, pool)


class _Unique:
    """Leaf values no two of which are equal, and each its own object."""

    def __init__(self):
        self.n = 1000

    def next(self, src):
        self.n += 1
        k = src.draw(3)
        if k == 0:
            return int(str(self.n))
        if k == 1:
            return f"s{self.n}"
        return self.n + 0.5


def size(src):
    n = src.draw(64)
    return n % 5 if n < 62 else src.int(5, 13)


def gen_value(src, pool, depth, budget, unique=None):
    """A JSON value; budget is a one-element list of remaining nodes."""
    budget[0] -= 1
    if depth <= 0 or budget[0] <= 0:
        k = 0
    else:
        k = src.draw(10)
    if k < 4:
        return unique.next(src) if unique else gen_scalar(src, pool)
    if k < 7:
        n = size(src)
        out = {}
        for _ in range(n):
            key = src.choice(pool) if not src.bool(1, 12) else gen_key(src)
            if key in out:
                continue
            out[key] = gen_value(src, pool, depth - 1, budget, unique)
        return out
    n = size(src)
    return [gen_value(src, pool, depth - 1, budget, unique) for _ in range(n)]


def gen_doc(src, pool, depth=4, budget=30, container=True, unique=False, scalars=True, shared=False):
    """A document.  Mostly containers; occasionally a scalar root or a big one."""
    doc = _gen_doc(src, pool, depth, budget, unique, scalars)
    if shared and isinstance(doc, (dict, list)) and src.bool(1, 20):
        doc = alias(src, doc)
    return doc


def _gen_doc(src, pool, depth, budget, unique, scalars):
    uniq = _Unique() if unique else None
    k = src.draw(60)
    if k == 59 and scalars:
        return gen_scalar(src, pool)
    if k == 58:  # a long array
        n = src.int(5, 300)
        base = [gen_value(src, pool, 1, [3], uniq) for _ in range(3)]
        out = []
        for i in range(n):
            v = base[i % 3]
            out.append(uniq.next(src) if uniq else (i if i % 2 else copy(v)))
        return out if src.bool() else {src.choice(pool): out}
    if k == 57:  # a deep document
        n = src.int(5, 60)
        v = uniq.next(src) if uniq else gen_scalar(src, pool)
        for i in range(n):
            key = src.choice(pool) if src.bool() else None
            v = [v] if key is None else {key: v}
        return v
    if k == 56:  # a wide object
        n = src.int(5, 60)
        out = {}
        for i in range(n):
            out[f"k{i}" if src.bool() else gen_key(src)] = (
                uniq.next(src) if uniq else gen_scalar(src, pool)
            )
        return out
    b = [budget]
    n = src.int(1, 5)
    if k >= 54:  # a bigger one: broad and bushy, or deep with branches
        n = src.int(4, 18)
        if k == 54:
            n = 3
            depth += src.int(1, 5)
        b = [budget * 3]
        pool = [*pool, *(gen_key(src) for _ in range(n // 2))]
    if k % 2:
        out = {}
        for _ in range(n):
            out[src.choice(pool)] = gen_value(src, pool, depth - 1, b, uniq)
        return out
    return [gen_value(src, pool, depth - 1, b, uniq) for _ in range(n)]


def alias(src, doc):
    """The document with one of its containers occurring at another place too.

    As JSON this is an ordinary document; only the Python objects are shared.
    """
    conts = [(loc, v) for loc, v in walk(doc) if isinstance(v, (dict, list))][:60]
    loc, v = src.choice(conts)
    if not loc:
        return [doc, doc] if src.bool() else {"a": doc, "b": doc}
    parents = [w for l, w in conts if l[: len(loc)] != loc]
    target = src.choice(parents)
    if isinstance(target, list):
        target.insert(src.draw(len(target) + 1), v)
    else:
        target[src.choice([*target, "a", "b", "zz"])] = v
    return doc


def big_docs():
    """(name, document) of deep and of long documents; every node is its own object."""
    for kind in ("l", "o", "m"):
        for n in (12, 35, 60, 90):
            v = ["x"]
            for i in range(n):
                k = "lom"[i % 2] if kind == "m" else kind
                v = [[i], v] if k == "l" else {"b": [i], "a": v}
            yield (f"deep {kind} {n}", v)
    for n in (11, 101, 1025, 12000):
        yield (f"long l {n}", [[i] for i in range(n)])
        yield (f"long o {n}", {str(i): [i] for i in range(n)})
        yield (f"long n {n}", {"a": [[[i] for i in range(n)]]})


def big_sample(doc):
    """Some locations in such a document."""
    nodes = list(walk(doc))
    if len(nodes) < 120:
        return nodes
    step = len(nodes) // 12
    return nodes[:4] + nodes[9:30] + nodes[30::step] + nodes[99:103] + nodes[1000:1004] + nodes[9999:10003] + nodes[-3:]


def copy(v):
    """A deep copy of a JSON value (fresh containers)."""
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copy(x) for x in v]
    return v


def walk(v, loc=()):
    """(location, value) of every node, in document pre-order."""
    stack = [(loc, v)]
    while stack:
        loc, v = stack.pop()
        yield loc, v
        if isinstance(v, dict):
            stack.extend([(loc + (k,), x) for k, x in v.items()][::-1])
        elif isinstance(v, list):
            stack.extend([(loc + (i,), x) for i, x in enumerate(v)][::-1])


def same(a, b):
    """Exact sameness of two JSON values: types, member order and all."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if len(a) != len(b) or list(a) != list(b):
            return False
        return all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a == 0 and b == 0:
        return math.copysign(1, a) == math.copysign(1, b)
    return a == b


def json_eq(a, b):
    """Equality as JSON values: numbers mathematically, booleans are not numbers."""
    ta, tb = isinstance(a, bool), isinstance(b, bool)
    if ta or tb:
        return ta and tb and a == b
    if isinstance(a, (int, float)):
        return isinstance(b, (int, float)) and a == b
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    if a is None:
        return b is None
    if isinstance(a, list):
        return (
            isinstance(b, list)
            and len(a) == len(b)
            and all(json_eq(x, y) for x, y in zip(a, b))
        )
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and len(a) == len(b)
            and all(k in b and json_eq(v, b[k]) for k, v in a.items())
        )
    raise TypeError(type(a))


def as_arg(doc):
    """How a document is handed to the library: string roots go as JSON text."""
    return json.dumps(doc) if isinstance(doc, str) else doc


def short(v, n=4000):
    """A document for a replay file."""
    try:
        s = json.dumps(v, ensure_ascii=True)
    except (TypeError, ValueError):
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def same_value(a, b):
    """Sameness of two JSON values, types included, but not the order of members."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same_value(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return a == b


def containers(v, out=None):
    """The ids of all containers of a value, with repetitions."""
    if out is None:
        out = []
    if isinstance(v, (dict, list)):
        out.append(id(v))
        for x in v.values() if isinstance(v, dict) else v:
            containers(x, out)
    return out
