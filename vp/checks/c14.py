"""C14: JSON Pointer text, tokens and navigation operations."""

from __future__ import annotations

import itertools

from .. import jsongen, refptr
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPointer, JSONPointerResolutionError, call, describe

RULE = (
    "random token sequences over awkward tokens (integer look-alikes, pointer-special characters, "
    "non-ASCII, blanks); pointers are constructed by parsing the RFC 6901 spelling, from_parts (strings, "
    "and ints for canonical indices), match pointers, join and slash, and parent. Text, equality, hash, "
    "relativity, parents and resolution are compared with the token sequences. Non-trivial: at least two "
    "tokens, or two pointers whose token sequences differ in one token; distinct by token sequences. Plus "
    "all pairs of sequences over a small token alphabet."
)

ASSUMPTIONS = [
    "tokens that spell integers beyond +-(2^53-1) are excluded (known finding C14-big-integer-token)",
    "tokens with backslashes are used with escape decoding off only; a token joined with the slash operator "
    "has no backslash, no leading blank and (as the property requires) is given in escaped form",
]

BLANK = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def build(src, tokens, details):
    """A pointer with these tokens, constructed in one of several ways."""
    text = refptr.spell(tokens)
    plain = "\\" not in text
    ways = ["parse", "parts", "parts-int"]
    if refptr.encodable(text):
        ways += ["parse-uri", "parts-uri"]
    if plain:
        ways += ["parse-escape", "parts-escape", "parts-int"]
    if tokens:
        ways.append("match")
        ways.append("parent")
        if plain and all(joinable(t) for t in tokens):
            ways += ["slash", "join", "join-many"]
    way = src.choice(ways)
    d = dict(details, tokens=tokens, way=way)

    esc = plain and src.bool() if way.endswith("-uri") else False
    coded = refptr.percent(src, text) if way == "parse-uri" else None
    codes = [refptr.percent(src, t) for t in tokens] if way == "parts-uri" else None
    if way.endswith("-uri"):
        d["given"] = coded if coded is not None else codes

    def go():
        if coded is not None:
            return JSONPointer(coded, unicode_escape=esc, uri_decode=True)
        if codes is not None:
            return JSONPointer.from_parts(codes, unicode_escape=esc, uri_decode=True)
        if way == "parse":
            return JSONPointer(text, unicode_escape=False)
        if way == "parse-escape":
            return JSONPointer(text)
        if way == "parts":
            return JSONPointer.from_parts(tokens, unicode_escape=False)
        if way == "parts-escape":
            return JSONPointer.from_parts(iter(tokens))
        if way == "parts-int":
            return JSONPointer.from_parts(
                [int(t) if refptr.CANON_SIGNED.fullmatch(t) else t for t in tokens], unicode_escape=False
            )
        if way == "parent":
            return JSONPointer.from_parts([*tokens, "zz"], unicode_escape=False).parent()
        if way == "match":
            import jsonpath

            doc = 0
            for t in reversed(tokens):
                doc = {t: doc}
            ms = list(jsonpath.finditer("$" + ".*" * len(tokens), doc))
            return ms[0].pointer()
        k = len(tokens) // 2
        p = JSONPointer(refptr.spell(tokens[:k]))
        rest = [refptr.escape(t) for t in tokens[k:]]
        if way == "slash":
            for t in rest:
                p = p / t
            return p
        if way == "join":
            return p.join(*rest)
        return p.join("/".join(rest)) if not rest[0] == "" else p.join(*rest)

    return call(go, what=f"constructing a pointer ({way})", details=d), way


def joinable(t):
    return not (t and t[0] in BLANK) and not t[:1].isspace()


def gen_tokens(src, pool, n=4):
    return [src.choice(pool) if src.bool(2, 3) else jsongen.gen_key(src) for _ in range(src.count(0, n, 2, 3))]


def check_pointer(p, tokens, details):
    text = refptr.spell(tokens)
    if str(p) != text:
        raise Violation("the pointer is not printed as the RFC 6901 spelling of its tokens", got=str(p), expected=text, **details)
    q = call(JSONPointer, text, unicode_escape=False, what="parsing the printed form", details=details)
    if not (q == p) or not (p == q) or p != q or hash(p) != hash(q):
        raise Violation("the reparsed pointer is not equal", got=repr(q), **details)
    if str(q) != text:
        raise Violation("printing the reparsed pointer gives another text", got=str(q), expected=text, **details)


def case(src, ctx):
    pool = jsongen.gen_pool(src, 2, 4)
    a = gen_tokens(src, pool)
    k = src.draw(6)
    b = list(a)
    if k == 0:
        b = gen_tokens(src, pool)
    elif k == 1:
        b = a + [src.choice(pool)]
    elif k == 2 and a:
        b = a[:-1]
    elif k == 3 and a:
        i = src.draw(len(a))
        t = a[i]
        b[i] = src.choice(["0" + t, "+" + t, t + "+", t + "%20", "%" + t, t + "%2B1", t + " ", t + "\n", "-" + t, t + "_0", t[:-1], t + "/", t.replace("0", "\uff10"), "#" + t, t.upper()])
    elif k == 4 and a:
        i = src.draw(len(a))
        b[i] = refptr.escape(a[i]) if src.bool() else refptr.unescape(a[i])
    if any(jsongen.RE_BIG_INT.fullmatch(t) for t in a + b):
        raise Discard
    details = {"a": a, "b": b}
    p, wp = build(src, a, details)
    q, wq = build(src, b, details)
    details["ways"] = (wp, wq)
    check_pointer(p, a, details)
    check_pointer(q, b, details)
    same = a == b
    if (p == q) is not same or (q == p) is not same or (p != q) is same:
        raise Violation("pointers are equal although their tokens differ" if not same else "pointers differ although their tokens are equal", p=repr(p), q=repr(q), **details)
    if same and hash(p) != hash(q):
        raise Violation("equal pointers have different hashes", **details)
    rel = len(a) > len(b) and a[: len(b)] == b
    if call(p.is_relative_to, q, what="is_relative_to", details=details) is not rel:
        raise Violation("is_relative_to", expected=rel, p=repr(p), q=repr(q), **details)
    ctx.label("equal" if same else "relative" if rel else "different")
    # parents
    r, t = p, list(a)
    for _ in range(len(a) + 2):
        r = call(r.parent, what="parent", details=details)
        t = t[:-1]
        check_pointer(r, t, dict(details, step="parent"))
        if t != a and not call(p.is_relative_to, r, what="is_relative_to", details=details):
            raise Violation("a pointer is not relative to its ancestor", p=repr(p), ancestor=repr(r), **details)
    # join
    t = src.choice(pool) if src.bool() else jsongen.gen_key(src)
    if joinable(t) and "\\" not in t:
        e = refptr.escape(t)
        d = dict(details, token=t)
        for how, j in (("slash", lambda: p / e), ("join", lambda: p.join(e))):
            c = call(j, what=how, details=d)
            check_pointer(c, [*a, t], dict(d, how=how))
            if call(c.parent, what="parent", details=d) != p:
                raise Violation("the parent of a joined pointer is not the pointer", got=repr(c.parent()), how=how, **d)
            if call(c.is_relative_to, p, what="is_relative_to", details=d) is not True:
                raise Violation("a joined pointer is not relative to the pointer", how=how, **d)
            if call(p.is_relative_to, c, what="is_relative_to", details=d) is not False:
                raise Violation("a pointer is relative to one below it", how=how, **d)
        b_text = refptr.spell(b)
        if "\\" not in b_text and b:
            for c in (call(lambda: p / b_text, what="slash", details=d), call(p.join, e, b_text, what="join", details=d)):
                check_pointer(c, b, dict(d, how="absolute part"))
            c = call(p.join, b_text, e, what="join", details=d)
            check_pointer(c, [*b, t], dict(d, how="absolute part, then a token"))
        resolve_step(src, p, a, t, d, ctx)
    if len(a) > 1 or not same:
        ctx.nontrivial(a, b)
        ctx.sample({"a": a, "b": b, "built by": [wp, wq]})


def outcome(f):
    try:
        return ("value", f())
    except JSONPointerResolutionError:
        return ("fails", None)


def resolve_step(src, p, a, t, details, ctx):
    """Resolving p/t is resolving p, then stepping by t."""
    leaf = ["leaf"]
    last = src.choice([
        {t: leaf}, {t: leaf, "x": 1}, [leaf, [1], [2]], [], {}, {"x": leaf}, "abc", 5, None, True,
        [[i] for i in range(13)], {"0": leaf, "1": [3]}, {t + " ": 1, " " + t: 2},
    ])
    doc = last
    for tok in reversed(a):
        if refptr.CANON.fullmatch(tok) and int(tok) < 4 and src.bool():
            doc = [[] for _ in range(int(tok))] + [doc]
        else:
            doc = {tok: doc, "other": 1} if tok != "other" else {tok: doc}
    if isinstance(doc, str):
        return
    e = refptr.escape(t)
    d = dict(details, document=jsongen.short(doc))
    joined = call(lambda: p / e, what="slash", details=d)
    base = call(p.resolve, doc, what="resolving the pointer", details=d)
    if base is not last:
        raise Violation("the pointer resolves to another value", got=repr(base), **d)
    one = call(JSONPointer.from_parts, [t], unicode_escape=False, what="from_parts", details=d)
    try:
        got = outcome(lambda: joined.resolve(doc))
        want = outcome(lambda: one.resolve(base)) if not isinstance(base, str) else ("fails", None)
    except Exception as err:
        raise Violation(f"resolve raised {describe(err)}", **d) from err
    if got[0] != want[0] or (got[0] == "value" and got[1] is not want[1] and not (isinstance(got[1], (str, int)) and got[1] == want[1])):
        raise Violation("resolving p/t differs from resolving p and stepping by t", got=repr(got), expected=repr(want), **d)
    try:
        v = refptr.step(last, t)
    except refptr.Missing:
        if got[0] == "value" and not refptr.extension(last, [t]):
            raise Violation("p/t resolves although t can't be applied", got=repr(got), **d) from None
        return
    if got != ("value", v) or got[1] is not v:
        raise Violation("p/t does not resolve to the step by t", got=repr(got), expected=repr(v), **d)
    ctx.label("p/t resolves")


ALPHABET = ["", "0", "00", "-1", "a", "~", "/", "~1", "~0", "-", "#0", "\u0661", " 1", "1", "+1", "01"]


def pairs(tier):
    n = 2 if tier == "quick" else 3
    seqs = [list(s) for k in range(n + 1) for s in itertools.product(ALPHABET, repeat=k)]
    yield from range(len(seqs))


_SEQS = {}


def seqs_for(n):
    if n not in _SEQS:
        _SEQS[n] = [list(s) for k in range(n + 1) for s in itertools.product(ALPHABET, repeat=k)]
    return _SEQS[n]


_BUILT = {}


def pair_case(i, ctx):
    n = 2 if ctx.tier == "quick" else 3
    seqs = seqs_for(n)
    if n not in _BUILT:
        _BUILT[n] = [
            (call(JSONPointer, refptr.spell(t), what="parse", details={"tokens": t}),
             call(JSONPointer.from_parts, t, what="from_parts", details={"tokens": t}))
            for t in seqs
        ]
    built = _BUILT[n]
    a = seqs[i]
    for p in built[i]:
        check_pointer(p, a, {"tokens": a})
    for j in range(len(seqs)):
        if n == 3 and (i * 31 + j) % 7:
            continue
        b = seqs[j]
        same, rel = i == j, len(a) > len(b) and a[: len(b)] == b
        for p in built[i]:
            for q in built[j]:
                ctx.evals += 1
                if (p == q) is not same:
                    raise Violation("equality of pointers", a=a, b=b, expected=same)
                if same and hash(p) != hash(q):
                    raise Violation("hash of equal pointers", a=a)
                if p.is_relative_to(q) is not rel:
                    raise Violation("is_relative_to", a=a, b=b, expected=rel)
    ctx.nontrivial(a)


PROPS = [
    Prop("operations", case, quick=200000, thorough=4000000),
    Enum("pairs", pairs, pair_case),
]
