"""C04: JSON Pointer resolution against an RFC 6901 model."""

from __future__ import annotations

import io
import json
from urllib.parse import quote

from .. import jsongen, refptr
from ..engine import Enum, Prop, Violation
from ..lib import JSONPointer, JSONPointerError, JSONPointerResolutionError, call, describe, jsonpath

RULE = (
    "random documents over awkward member names; every pointer is spelled from a node's tokens "
    "(must resolve to that very object) or from a node's tokens with one or more tokens replaced or "
    "appended (missing names, out-of-range, non-canonical and `-` indices, tokens applied to scalars), "
    "where an RFC 6901 model decides whether it resolves. Extensions the property excludes are not "
    "judged. Non-trivial: the pointer has at least one token and the target is below the root, or the "
    "pointer must fail; distinct by (pointer, document). Plus an exhaustive table of tokens x values, and all member names of up to six of the characters ~ / 0 1."
)

ASSUMPTIONS = [
    "member names that spell integers beyond +-(2^53-1) are excluded (known finding C04-big-integer-name)",
]

INDEXY = (
    jsongen.DIGITS + jsongen.LOOKALIKE
    + ["-", "0", "1", "2", "4", "9", "00", "1 ", "", "a", "+1", "1.0", "\u0661", "1_0", "0x0", "5_", "_5", "\n1", "1\x00"]
)


class Default:
    pass


DEFAULT = Default()


def expect_value(doc, arg, text, v, details, esc, via, src):
    d = dict(details, pointer=text, unicode_escape=esc, via=via)
    ident = arg is doc

    def check(got, how):
        if ident and got is not v:
            raise Violation(f"{how} gives another object", got=repr(got)[:1000], expected=jsongen.short(v, 500), **d)
        if not ident and not jsongen.same(got, v):
            raise Violation(f"{how} gives another value", got=repr(got)[:1000], expected=jsongen.short(v, 500), **d)

    p = call(make, text, esc, via, what="building the pointer", details=d)
    check(call(p.resolve, fresh(arg), what="resolve", details=d), "resolve")
    check(call(p.resolve, fresh(arg), default=DEFAULT, what="resolve with default", details=d), "resolve with a default")
    if call(p.exists, fresh(arg), what="exists", details=d) is not True:
        raise Violation("exists() is not True though the pointer resolves", **d)
    check(call(jsonpath.resolve, text, fresh(arg), unicode_escape=esc, what="jsonpath.resolve", details=d), "jsonpath.resolve")
    tokens = refptr.split(text)
    if via == "uri" and refptr.encodable(text):
        kw = {"unicode_escape": esc, "uri_decode": True}
        d["percent-encoded"] = coded = refptr.percent(src, text)
        check(call(jsonpath.resolve, coded, fresh(arg), **kw, what="jsonpath.resolve(uri)", details=d), "jsonpath.resolve(uri)")
        codes = [refptr.percent(src, t) for t in tokens]
        check(call(jsonpath.resolve, codes, fresh(arg), **kw, what="jsonpath.resolve(uri parts)", details=d), "jsonpath.resolve(uri parts)")
    if not any("\\" in t for t in tokens) or not esc:
        check(call(jsonpath.resolve, tokens, fresh(arg), unicode_escape=esc, what="jsonpath.resolve(parts)", details=d), "jsonpath.resolve(parts)")


def expect_failure(doc, arg, text, details, esc, via):
    d = dict(details, pointer=text, unicode_escape=esc, via=via)
    p = call(make, text, esc, via, what="building the pointer", details=d)
    try:
        got = p.resolve(fresh(arg))
    except JSONPointerResolutionError:
        pass
    except Exception as err:
        raise Violation(f"resolve raised {describe(err)}, not a pointer resolution error", **d) from err
    else:
        raise Violation("a pointer RFC 6901 can't evaluate gives a value", got=repr(got)[:1000], **d)
    for default in (DEFAULT, None, 0):
        got = call(p.resolve, fresh(arg), default=default, what="resolve with default", details=d)
        if got is not default:
            raise Violation("resolve does not return the default", got=repr(got)[:1000], **d)
    if call(p.exists, fresh(arg), what="exists", details=d) is not False:
        raise Violation("exists() is not False though the pointer does not resolve", **d)
    got = call(jsonpath.resolve, text, fresh(arg), default=DEFAULT, unicode_escape=esc, what="jsonpath.resolve", details=d)
    if got is not DEFAULT:
        raise Violation("jsonpath.resolve does not return the default", got=repr(got)[:1000], **d)


def make(text, esc, via):
    if via == "uri":
        return JSONPointer(quote(text), unicode_escape=esc, uri_decode=True)
    if via == "parts":
        return JSONPointer.from_parts(refptr.split(text), unicode_escape=esc)
    return JSONPointer(text, unicode_escape=esc)


class Text:
    """A document given as text or as a file; made afresh for every call."""

    def __init__(self, text, file):
        self.text, self.file = text, file


def fresh(arg):
    if isinstance(arg, Text):
        return io.StringIO(arg.text) if arg.file else arg.text
    return arg


def arg_for(src, doc):
    if isinstance(doc, str):
        return Text(json.dumps(doc), src.bool())
    k = src.draw(12)
    if k == 11:
        return Text(json.dumps(doc), False)
    if k == 10:
        return Text(json.dumps(doc, ensure_ascii=False), True)
    return doc


def case(src, ctx):
    pool = jsongen.gen_pool(src, 1, 5)
    doc = jsongen.gen_doc(src, pool, unique=src.bool())
    arg = arg_for(src, doc)
    nodes = list(jsongen.walk(doc))
    details = {"document": jsongen.short(doc)}
    for _ in range(src.int(1, 4)):
        loc, v = src.choice(nodes[:80])
        tokens = [str(p) for p in loc]
        mutate = src.draw(5)
        if mutate >= 2:
            cur = v
            for _ in range(src.int(1, 2)):
                k = src.draw(6)
                if k == 0 and tokens:
                    i = src.draw(len(tokens))
                    tokens[i] = token(src, pool, None)
                elif k == 1 and tokens:
                    # another spelling of an index
                    i = src.draw(len(tokens))
                    t = tokens[i]
                    tokens[i] = src.choice(["0" + t, "+" + t, " " + t, t + " ", t + "\n", "-" + t, t + ".0", t + "_", t.upper(), t + "0", t[:-1]])
                else:
                    tokens.append(token(src, pool, cur))
        text = refptr.spell(tokens)
        esc = "\\" not in text and src.bool()
        via = src.choice(["text", "text", "text", "parts", "uri"])
        if via == "uri" and any(0xD800 <= ord(c) < 0xE000 for c in text):
            via = "text"
        if src.bool(1, 4):
            # The same text parsed under another setting before must not matter.
            try:
                jsonpath.resolve(text, fresh(arg), unicode_escape=not esc, uri_decode=src.bool())
            except Exception:
                pass
        try:
            want = refptr.resolve(doc, tokens)
        except refptr.Missing as err:
            if refptr.extension(doc, tokens):
                ctx.label("extension, not judged")
                continue
            ctx.label("fails: " + err.why)
            expect_failure(doc, arg, text, details, esc, via)
            ctx.nontrivial(text, jsongen.short(doc))
            continue
        ctx.label("resolves")
        expect_value(doc, arg, text, want, details, esc, via, src)
        if tokens:
            ctx.nontrivial(text, jsongen.short(doc))
            ctx.sample({"pointer": text, "document": jsongen.short(doc, 300), "escape decoding": esc})
        ctx.evals += 1


def token(src, pool, cur):
    k = src.draw(10)
    if isinstance(cur, list):
        if k < 2:
            return str(len(cur))
        if k < 3:
            return str(len(cur) + src.int(1, 3))
        if k < 9:
            return src.choice(INDEXY)
    if isinstance(cur, dict) and cur and k < 4:
        name = src.choice(list(cur))
        return src.choice([name + "a", name[:-1], "0" + name, name + "/", name + " ", name.swapcase(), refptr.escape(name)])
    if k < 6:
        return src.choice(pool)
    if k < 8:
        return src.choice(INDEXY)
    return jsongen.gen_key(src)


# -- every token on every kind of value ------------------------------------------------

TOKENS = sorted(set(INDEXY + jsongen.LOOKALIKE + jsongen.SIMPLE + jsongen.POINTERY + jsongen.HASHY + jsongen.QUOTES + jsongen.CONTROL + jsongen.UNI + jsongen.NONBMP + jsongen.ODD))


def table(tier):
    for i in range(len(TOKENS)):
        yield i


def table_case(i, ctx):
    t = TOKENS[i]
    other = TOKENS[(i * 7 + 3) % len(TOKENS)]
    leaf = ["leaf"]
    values = [
        None, True, False, 0, 1.5, "", "abc", "0123", [], [[1]], [[1], [2]], [[k] for k in range(15)],
        {}, {t: leaf}, {other: leaf}, {t: leaf, other: [2]}, {other: [2], t: leaf}, {t: {t: leaf}},
        {"0": [1], "1": [2], "-1": [3], "": [4], "-": [5]}, {t: [leaf, [0]]},
    ]
    for doc0 in values:
        for wrap in (0, 1, 2):
            doc = doc0 if wrap == 0 else ([doc0] if wrap == 1 else {"w": doc0})
            pre = [] if wrap == 0 else (["0"] if wrap == 1 else ["w"])
            arg = doc if not isinstance(doc, str) else Text(json.dumps(doc), False)
            for tokens in (pre + [t], pre + [t, t], pre + [t, "0"]):
                text = refptr.spell(tokens)
                details = {"document": jsongen.short(doc)}
                for esc in (False, True):
                    if esc and "\\" in text:
                        continue
                    for via in ("text", "parts"):
                        ctx.evals += 1
                        try:
                            want = refptr.resolve(doc, tokens)
                        except refptr.Missing:
                            if not refptr.extension(doc, tokens):
                                expect_failure(doc, arg, text, details, esc, via)
                                ctx.nontrivial(text, jsongen.short(doc))
                            continue
                        expect_value(doc, arg, text, want, details, esc, via, None)
                        ctx.nontrivial(text, jsongen.short(doc))


# -- every short token over the characters of escapes --------------------------------------


def escapes(tier):
    yield from range(sum(4**n for n in range(1, 7)))


def escape_name(i):
    n = 1
    while i >= 4**n:
        i -= 4**n
        n += 1
    return "".join("~/01"[i // 4**j % 4] for j in range(n))


def escapes_case(i, ctx):
    name = escape_name(i)
    text = "/" + refptr.escape(name)
    leaf = ["leaf"]
    index = refptr.CANON_SIGNED.fullmatch(name)
    for tail in ("", "/~01", "/0"):
        inner = {"~1": leaf} if tail == "/~01" else [leaf]
        doc = {name: inner if tail else leaf, name + "~": 1, "~" + name: 2, name.replace("~", "~0"): 3, name.replace("/", "~1"): 4}
        doc = {**doc, name: inner if tail else leaf}
        d = {"document": jsongen.short(doc)}
        for esc in (False, True):
            expect_value(doc, doc, text + tail, leaf, d, esc, "text", None)
            ctx.evals += 1
        del doc[name]
        if not refptr.extension(doc, refptr.split(text + tail)):
            expect_failure(doc, doc, text + tail, d, True, "text")
    if not index:
        ctx.nontrivial(name)


BIG_DOCS = [name for name, _ in jsongen.big_docs()]


def big_cases(tier):
    yield from range(len(BIG_DOCS))


def big_case(i, ctx):
    """Long arrays and pointers of many tokens."""
    name, doc = list(jsongen.big_docs())[i]
    details = {"document": name}
    sample = jsongen.big_sample(doc)
    for loc, v in sample[:: max(1, len(sample) // 30)] + sample[-2:]:
        text = refptr.spell(loc)
        for esc, via in ((False, "text"), (True, "parts"), (True, "text")):
            expect_value(doc, doc, text, v, details, esc, via, None)
            last = str(len(v)) if isinstance(v, list) else "zz"
            for t in (last, "-", "0" + (text[-1:] or "1"), "1x"):
                if not refptr.extension(doc, [*refptr.split(text), t]):
                    try:
                        refptr.resolve(doc, [*refptr.split(text), t])
                    except refptr.Missing:
                        expect_failure(doc, doc, text + "/" + t, details, esc, via)
            ctx.evals += 1
        ctx.nontrivial(name, loc)


PROPS = [
    Enum("deep and long", big_cases, big_case),
    Prop("pointers", case, quick=300000, thorough=2500000),
    Enum("token table", table, table_case),
    Enum("names made of ~ / 0 1", escapes, escapes_case),
]
