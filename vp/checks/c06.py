"""C06: only the documented error families ever escape, and every call terminates."""

from __future__ import annotations

import asyncio
import json
import os
import re
import warnings

from .. import jsongen, patchgen, qgen, refptr
from ..engine import Discard, Enum, Prop, Violation
from ..lib import (
    JSONPatch, JSONPatchError, JSONPathEnvironment, JSONPathError, JSONPointer, JSONPointerError,
    JSONPointerResolutionError, RelativeJSONPointer, RelativeJSONPointerError, _Metered, describe,
    jsonpath, metered_env, patch_mod, ptr_mod,
)

RULE = (
    "queries: token soup over every token of the language, odd numbers, strings, regular expressions and "
    "characters; a grammar of filters with operands of every kind in every position (`grammar`); and valid "
    "queries, standard and extended, under 0-6 mutations (characters and tokens deleted, duplicated, swapped, "
    "inserted; truncation; splicing of two queries). Whatever compiles is evaluated with findall, finditer, "
    "match and query on documents that hold every JSON type at every position, with a filter context. "
    "Pointers and relative pointers: the same treatment, then resolve, resolve_parent, exists, `to`, join and "
    "parent. Patches: lists of operations with missing, ill-typed and odd members, applied to any document. "
    "Enumerated: every operator and function with every pair of operand forms, and every pair of segments, "
    "synchronously and not, on documents that pair odd values and patterns; every odd token as a pointer and "
    "in every patch operation against every value. "
    "Anything but the documented error families, a failing str() or repr() of an error, or a call that does "
    "not end within 20 s of CPU time is a violation. Non-trivial: the text compiled and was evaluated, or was "
    "refused; distinct by text."
)

ASSUMPTIONS = [
    "more than 60 nested brackets, parentheses and negations, and more than 100 chained segments, operators or "
    "operands, count as nested too deeply",
    "a query with more than four descendant segments or filters is not evaluated",
    "queries that take more than 200000 evaluation steps are not judged, unless they are so short that they can't",
]


ENVS = [metered_env(), metered_env(well_typed=False), metered_env(filter_caching=False), metered_env(unicode_escape=False)]
PLAIN = [jsonpath, JSONPathEnvironment(well_typed=False)]
LIMIT = 200000

# Odd patterns and escape sequences.
warnings.simplefilter("ignore", FutureWarning)
warnings.simplefilter("ignore", DeprecationWarning)


# -- documents --------------------------------------------------------------------------------

EVERY = [None, True, False, 0, 1, -1, 1.5, 2**53, 10**400, -(10**400), 1e308, "", "a", "ab", "(", "[", "*", "a{99999999999}", "1", [], {}]
DOCS = [
    None, True, 0, -1, 1.5, "", "a", [], {}, EVERY, {"a": EVERY}, [[x] for x in EVERY], [{"a": x} for x in EVERY],
    {"a": {"a": {"a": [1, {"b": [2, "a"]}]}}, "b": None},
    {k: v for k, v in zip("abcdefghijklmnopqrstuv", EVERY)},
    [{"a": x, "b": y} for x in (None, 1, "a", [1, "a"], {"a": 1}, True) for y in (None, 1.5, "ab", ["a", None], {"b": 2}, "(")],
    {"and": 1, "true": [True, {"in": "in"}], "": {"": [""]}, "0": 0, "-1": -1, "1": [1, 2], "~": "~", "#": "#", "$": "$", "@": ["@"]},
    [[0, 1, 2, 3], [[], [[]]], {"a": []}, "abc", ["abc", "", "é😀"], {"a": "b", "b": {"c": "d"}}],
    {"length": 2, "p": ["(", "[a", "a{2,1}", "\\", "(?P<n>a)(?P<n>a)", "(?L)a", "*", "(?i)A"], "s": ["a", "A", "aa", "", "\n"]},
]
CONTEXTS = [None, {}, {"a": 1}, {"a": EVERY, "b": {"a": [1, 2, "a"]}}, {"x": None, "l": [1, "a"], "s": "a"}]


# -- query text -------------------------------------------------------------------------------

NUMBERS = [
    "0", "1", "-1", "2", "-0", "00", "01", "-01", "1e2", "1E2", "1e+2", "1e-2", "-1e2", "1e400", "-1e400", "1e-400",
    "1.5", "1.", ".5", "-.5", "1.e5", "1.5e400", "1e", "1e+", "--1", "-", "+1", "+", "1_0", "0x1", "1.2.3", "1e2e3", "1e5.5",
    "9007199254740991", "9007199254740992", "-9007199254740992", "9" * 30, "9" * 400, "9" * 4301, "-" + "9" * 5000, "1." + "9" * 400,
    "١", "１", "²", "1a", "a1", "NaN", "Infinity", "1e99999", "1e-99999", "1E0001", "1e9999999999999999999999",
]
STRINGS = [
    "'a'", '"a"', "''", '""', "'\\u0041'", "'\\ud83d\\ude00'", "'\\ud800'", "'\\udc00\\ud800'", "'\\x41'", "'\\", "'", '"', "'a", '"a', "'\\'",
    '"\\""', "'\\''", "'\"'", '"\'"', "'\\u00'", "'\\u'", "'\\uD83D'", "'\\n'", "'\n'", "'\x00'", '"\t"', "'\x7f'", "'é'", "'😀'", "'\u2028'",
    "'\ud800'", "'\\\\'", "'\\/'", "'\\a'", "'a b'", "'$'", "'@.a'", "'a{2'", "'('", "'\\u0000'", "'\\q\"'", '"\\\'"', "'\\u12G4'", "'\\N{DASH}'",
]
REGEXES = [
    "/a/", "/a/i", "/a/aims", "/a/iii", "/a/x", "/(/", "/[/", "/*/", "/a{99999999999}/", "//", "///", "/", "/a", "/a/I", "/\\//", "/\\/", "/(?P<a>a)(?P<a>a)/",
    "/(?L)a/", "/(?u)a/a", "/(?a)a/", "/a(?i)/", "/[b-a]/", "/a{2,1}/", "/\\8/", "/\\N{x}/", "/\\x/", "/\\u1/", "/(?<=a+)b/", "/(?:a/", "/a**/", "/\n/s", "/./s", "/a|b/",
    "/(?#/", "/(?(1)a|b)/", "/(a)\\1/", "/\\Z/", "/\\p{L}/", "/[[:alpha:]]/", "/é/i", "/😀/", "/(?P<1>a)/", "/(?i:a)/", "/{/", "/a{,2}/", "/a{1000000}{1000000}/",
]
WORDS = ["and", "or", "not", "in", "contains", "true", "True", "false", "False", "null", "Null", "nil", "Nil", "none", "None", "undefined", "missing"]
NAMES = ["a", "b", "c", "ab", "a-b", "_a", "é", "😀", "_", "__", "length", "count", "x", "android", "nota", "inn", "a1", "A", "nullx", "true_"]
FUNCS = ["length(", "count(", "match(", "search(", "value(", "isinstance(", "is(", "typeof(", "type(", "keys(", "foo(", "not(", "and(", "in(", "a(", "lengthx("]
SYMBOLS = [
    "$", "@", "#", "_", "~", "^", "|", "&", "..", ".", "*", "?", "[", "]", "(", ")", ",", ":", "==", "!=", "<>", "<=", ">=", "<", ">", "=~", "!", "&&", "||",
    "=", "===", "!==", "...", "....", "[?", "..[", ".*", "::", "[]", "()", "[?@", "?@.a", "@.a", "$.a", "@[0]", "_.a", "^[0]", "$..", "@..a", ".a", ".b", "[0]", "[*]", "[a]", ".~",
]
ODD = [" ", "\n", "\t", "\r", "\x0b", "\x00", "\u00a0", "\u2028", "%", "\\", "{", "}", ";", "`", "\ud800", "\ufeff", "=>", "/", "\\u0061", "-", "'", '"', "\x85", "\u0300", "\u200d"]


def soup_token(s):
    return s.choice(s.weighted([(10, SYMBOLS), (3, NUMBERS), (3, STRINGS), (2, REGEXES), (3, WORDS), (4, NAMES), (2, FUNCS), (1, ODD)]))


def soup(s):
    n = s.count(1, 16, 5, 6)
    sep = s.choice(["", "", " "])
    out = s.choice(["$", "$", "$[?", "$[?@", "$[", "$.", "", "@", "^", "a"])
    for _ in range(n):
        out += sep + soup_token(s)
    if s.bool():
        # close what is open
        stack = []
        for ch in out:
            if ch in "[(":
                stack.append({"[": "]", "(": ")"}[ch])
            elif stack and ch == stack[-1]:
                stack.pop()
        out += "".join(reversed(stack))
    return out


class Grammar:
    """Queries from a loose grammar: any operand anywhere."""

    def __init__(self, s):
        self.s = s
        self.n = 30

    def name(self):
        return self.s.choice(NAMES[:8]) if self.s.bool(4, 5) else self.s.choice([*NAMES, *WORDS])

    def seg(self, depth):
        s = self.s
        self.n -= 1
        k = s.draw(16)
        if k < 5:
            return "." + self.name()
        if k < 7:
            return "[" + s.choice(["0", "1", "-1", "2"]) + "]"
        if k < 8:
            return s.choice([".*", "[*]", ".~", "[~]", "[:]", "[::-1]", "[1:]", "[:1]", "[0:1:0]", "1:2", ":1"])
        if k < 9:
            return ".." + s.choice([self.name(), "*", "[0]", "~", "['a']"])
        if k < 13:
            return "[" + s.choice([",", ", ", " , "]).join(self.sel(depth) for _ in range(s.count(1, 3, 1, 4))) + "]"
        if depth > 0 and self.n > 0:
            return s.choice(["", "", ".."]) + "[?" + self.expr(depth - 1) + "]"
        return "." + self.name()

    def sel(self, depth):
        s = self.s
        k = s.draw(12)
        if k < 3:
            return s.choice(STRINGS)
        if k < 5:
            return s.choice(NUMBERS)
        if k < 6:
            return self.name()
        if k < 8:
            return s.choice([s.choice(NUMBERS), ""]) + ":" + s.choice([s.choice(NUMBERS), ""]) + s.choice(["", ":", ":" + s.choice(NUMBERS)])
        if k < 9:
            return s.choice(["*", "~", "#", "_", "@", "$", "^"])
        if depth > 0 and self.n > 0:
            return "?" + self.expr(depth - 1)
        return "'a'"

    def path(self, depth):
        s = self.s
        self.n -= 1
        return s.choice("@@@@$$_^") + "".join(self.seg(depth) for _ in range(s.count(0, 3, 1, 2)))

    def operand(self, depth):
        s = self.s
        self.n -= 1
        k = s.draw(20)
        if k < 8 or self.n <= 0:
            return self.path(depth)
        if k < 9:
            return "#"
        if k < 10:
            return s.choice(["undefined", "missing"])
        if k < 12:
            return s.choice(["1", "0", "-1", "1.5", "'a'", "'ab'", "''", "true", "False", "null", "nil", "None"])
        if k < 13:
            return s.choice([NUMBERS, STRINGS, WORDS])[s.draw(17)]
        if k < 14:
            return s.choice(REGEXES)
        if k < 16:
            items = [s.choice([s.choice(STRINGS), s.choice(NUMBERS), "true", "null", "1", "'a'", "None"]) for _ in range(s.draw(4))]
            return "[" + ", ".join(items) + s.choice(["", "", "", ","]) + "]"
        if k < 19:
            return (s.choice(FUNCS) if s.bool(1, 6) else s.choice(FUNCS[:9])) + ", ".join(self.arg(depth) for _ in range(s.choice([1, 1, 1, 2, 2, 0, 3]))) + ")"
        return "(" + self.expr(depth) + ")"

    def arg(self, depth):
        s = self.s
        return self.expr(depth) if s.bool(1, 6) else self.operand(depth)

    def expr(self, depth, lvl=3):
        s = self.s
        self.n -= 1
        k = s.draw(12)
        if self.n > 0 and lvl > 0:
            if k == 9:
                return s.choice(["!", "not ", "! "]) + self.expr(depth, lvl - 1)
            if k == 10:
                return "(" + self.expr(depth, lvl - 1) + ")"
            if k == 11:
                return self.expr(depth, lvl - 1) + s.choice([" && ", " || ", " and ", " or ", "&&", "||"]) + self.expr(depth, lvl - 1)
        if k < 2:
            return self.operand(depth)
        out = self.operand(depth)
        for _ in range(1 if not s.bool(1, 16) else 2):
            out += s.choice([" == ", " != ", " <> ", " < ", " <= ", " > ", " >= ", " =~ ", " in ", " contains ", "==", " in ", " contains ", " =~ "]) + self.operand(depth)
        return out

    def query(self):
        s = self.s
        out = s.choice(["@", "#", "_", "~", "&"]) if s.bool(1, 16) else s.choice(["$", "$", "$", "$", "^", ""])
        out += "".join(self.seg(2) for _ in range(s.count(0, 3, 1, 2)))
        if s.bool():
            out += "[?" + self.expr(2) + "]"
        while s.bool(1, 10):
            out += s.choice([" | ", "|", " & ", "&"]) + self.query()
        return out


RE_TOKENS = re.compile(r"'[^']*'|\"[^\"]*\"|[a-z_A-Z0-9]+|\.\.|[=!<>&|]+|\s+|.", re.DOTALL)


def mutate(s, text, other):
    for _ in range(s.count(0, 6, 1, 2)):
        toks = RE_TOKENS.findall(text)
        if not toks:
            toks = [""]
        k = s.draw(12)
        i = s.draw(len(toks))
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[s.draw(len(toks))])
        elif k == 2:
            j = s.draw(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k < 5:
            toks.insert(i, soup_token(s))
        elif k < 8:
            toks[i] = soup_token(s)
        elif k == 8:
            toks = toks[:i]
        elif k == 9:
            more = RE_TOKENS.findall(other)
            toks = toks[:i] + (more[s.draw(len(more)):] if more else [])
        else:
            text = "".join(toks)
            if text:
                j = s.draw(len(text))
                ch = s.choice(["", "'", '"', "\\", "]", "[", "(", ")", "/", "-", "e", "0", ".", " ", "\x00", "\ud800", "é", "?", ",", ":"])
                text = text[:j] + ch + text[j + (1 if s.bool() else 0):]
            continue
        text = "".join(toks)
    return text


# -- judging ----------------------------------------------------------------------------------

def render_error(err, details):
    try:
        str(err)
        repr(err)
        f"{err}"
        str(err.__cause__), str(err.__context__)
    except Exception as bad:
        raise Violation(f"rendering {type(err).__name__} as text raised {describe(bad)}", **details) from bad


def family(fn, families, what, details):
    """Call fn; returns ("ok", result) or ("error", None)."""
    try:
        return ("ok", fn())
    except families as err:
        render_error(err, details)
        return ("error", err)
    except Discard:
        raise
    except Exception as err:
        raise Violation(f"{what} raised {describe(err)[:500]}", **details) from err


def too_deep(text):
    return (
        len(text) > 12000
        or text.count("(") + text.count("[") + text.count("!") + len(re.findall("not", text)) > 60
    )


def costly(text):
    return text.count("..") > 4 or text.count("?") > 4 or text.count(",") > 24


def small(text):
    """So small that it can't take LIMIT steps on documents of this size."""
    return len(text) < 60 and text.count("..") <= 1 and text.count("?") <= 1 and "," not in text and ":" not in text and text.count("*") <= 1


def evaluate(src, env, path, text, doc, context, details):
    arg = {} if context is None else {"filter_context": context}
    data = json.dumps(doc) if isinstance(doc, str) else doc
    op = src.draw(6)

    def run():
        if op < 3:
            return list(path.finditer(data, **arg))
        if op == 3:
            return path.findall(data, **arg)
        if op == 4:
            return path.match(data, **arg)
        return list(path.query(data, **arg).values()) if not arg else list(path.query(data, **arg).locations())

    _Metered.steps = 0
    _Metered.limit = LIMIT
    try:
        return family(run, JSONPathError, "evaluation", details)
    except Discard:
        if small(text):
            raise Violation(f"evaluation did not end after {LIMIT} steps", **details) from None
        raise


def judge_query(src, ctx, text, docs, contexts):
    if too_deep(text):
        raise Discard
    env = src.choice(ENVS) if src.bool(1, 3) else ENVS[0]
    details = {"query": text[:4000], "query_repr": ascii(text)[:4000], "well_typed": env.well_typed}
    kind, path = family(lambda: env.compile(text), JSONPathError, "compile", details)
    if kind == "error":
        ctx.label("refused: " + type(path).__name__)
        ctx.nontrivial("refused", text)
        return False
    ctx.label("compiled")
    family(lambda: str(path), JSONPathError, "str(query)", details)
    if costly(text):
        return True
    n = 2 if len(docs) > 1 else 1
    for _ in range(n):
        doc = src.choice(docs)
        context = src.choice(contexts)
        details["document"] = jsongen.short(doc)
        details["filter_context"] = repr(context)[:2000]
        try:
            kind, out = evaluate(src, env, path, text, doc, context, details)
        except Discard:
            ctx.label("too expensive")
            continue
        if kind == "error":
            ctx.label("evaluation refused: " + type(out).__name__)
        elif out:
            ctx.label("matched")
    ctx.nontrivial("compiled", text)
    return True


def soup_case(src, ctx):
    text = soup(src)
    ok = judge_query(src, ctx, text, DOCS, CONTEXTS)
    ctx.sample({"query": ascii(text)[:400], "compiled": ok})


def grammar_case(src, ctx):
    text = Grammar(src).query()
    if src.bool(1, 4):
        text = mutate(src, text, "$[?@.a == 'b' && !@.c]")
    ok = judge_query(src, ctx, text, DOCS, CONTEXTS)
    ctx.sample({"query": ascii(text)[:400], "compiled": ok})


def mutation_case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool)
    context = {src.choice(pool): jsongen.gen_value(src, pool, 2, [6])} if src.bool() else None
    ext = src.bool(2, 3)
    r = qgen.Render(src, ext=ext)

    def make():
        g = qgen.Gen(src, doc, pool, filters=True, ext=ext, extfuncs=ext, context=context, max_segs=3, fdepth=2)
        return r.query(g.query("^" if ext and src.bool(1, 8) else "$"), top=True)

    text = make()
    other = make() if src.bool(1, 3) else text
    if src.bool(1, 4):
        text += src.choice([" | ", " & "]) + other
    text = mutate(src, text, other)
    ok = judge_query(src, ctx, text, [doc], [context])
    ctx.sample({"query": ascii(text)[:400], "compiled": ok})


UNICODE = [chr(c) for c in range(0x20, 0x7F)] + ["\x00", "\n", "é", "\u0660", "\u2028", "😀", "\ud800", "\udfff", "\uffff", "ß", "\u00b2"]


def chars_case(src, ctx):
    """Any characters at all."""
    text = src.choice(["", "$", "$.", "$[", "$['", "$[?", "$[?@", "$..", "/"]) + "".join(src.choice(UNICODE) for _ in range(src.count(0, 12, 5, 6)))
    if src.bool(2, 3):
        text += src.choice(["]", "']", "'", ")]", "/]", '"]', ""])
    judge_query(src, ctx, text, DOCS, CONTEXTS)


# -- pointers ---------------------------------------------------------------------------------

PTR_TOKENS = [
    "a", "b", "", "0", "1", "-1", "-", "00", "01", "-0", "+1", "1e2", "1_0", " ", "~", "~0", "~1", "~2", "~01", "#", "#0", "#1", "#a", "#-", "##", "~a", "~#",
    "\\u0061", "\\u", "\\u12", "\\ud83d\\ude00", "\\ud800", "\\udc00", "\\x41", "\\x4", "\\", "\\\\", "\\N{DASH}", "\\N{x}", "\\N", "\\U0001F600", "\\U99999999", "\\777", "\\n", "\\/",
    "%20", "%", "%2F", "%zz", "%E9", "%C3%A9", "%5Cu0061", "%00", "é", "😀", "\ud800", "\x00", "\n", "9007199254740991", "9007199254740992", "-9007199254740992", "9" * 30, "9" * 4301, "-" + "9" * 4400,
    "١", "１", "²", "None", "true", "1.5", "$", "@", "..", "*", "a/b", "\t", "\u2028", "#9007199254740992", "#" + "9" * 4400, "#-1", "#00",
]


def pointer_text(s, doc):
    k = s.draw(8)
    if k < 2:
        toks = [str(t) for t in s.choice(list(jsongen.walk(doc))[:200])[0]]
        text = refptr.spell(toks)
        if s.bool():
            text += "/" + s.choice(PTR_TOKENS)
        return text
    if k < 7:
        text = "".join("/" + s.choice(PTR_TOKENS) for _ in range(s.count(0, 5, 2, 3)))
        return s.choice(["", "", "", "", "", "", " ", "\n", "a", "#", "~", "\\", "0"]) + text
    return "".join(s.choice(["/", "/", "~", "\\", "u", "0", "1", "#", "a", "-", "%", "2", "F", "\ud800", "é", "N", "{", "}", "x"]) for _ in range(s.count(0, 14, 7, 8)))


def relative_text(s, doc):
    k = s.draw(10)
    if k < 8:
        out = s.choice(["0", "1", "2", "3"]) if s.bool(2, 3) else s.choice(["0", "1", "2", "3", "10", "00", "01", "-1", "", "9" * 30, "9" * 4400, "+1", "a", " 0", "1 ", "１", "²", "٣", "1e2", "0x1"])
        out += s.choice(["", "", "+1", "-1"]) if s.bool(2, 3) else s.choice(["", "", "", "+1", "-1", "+0", "-0", "+10", "-10", "+", "-", "++1", "+01", "-99", "+" + "9" * 30, "-" + "9" * 4400, "+１", "+²", "#", "+1#", " +1", "+ 1", "+a"])
        out += s.choice(["", "", "#", "##", "# ", "/", pointer_text(s, doc), pointer_text(s, doc), pointer_text(s, doc)])
        return out
    return "".join(s.choice("0123#+-/ a~\\") for _ in range(s.count(0, 8, 4, 5)))


PTR_ERRORS = JSONPointerError
REL_ERRORS = (JSONPointerError, RelativeJSONPointerError)


def pointer_case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = src.choice(DOCS) if src.bool() else jsongen.gen_doc(src, pool)
    data = json.dumps(doc) if isinstance(doc, str) else doc
    kw = {"unicode_escape": src.bool(3, 4), "uri_decode": src.bool(1, 4)}
    text = pointer_text(src, doc)
    details = {"pointer": ascii(text)[:2000], "document": jsongen.short(doc), **kw}
    if src.bool(1, 3):  # module-level conveniences
        arg = text
        if src.bool(1, 3):
            arg = [src.choice([*PTR_TOKENS, 0, 1, -1, 2**53, 10**400]) for _ in range(src.draw(4))]
            details["parts"] = ascii(arg)[:2000]
        kind, _ = family(lambda: ptr_mod.resolve(arg, data, default=src.choice([None, 1]), **kw) if src.bool() else ptr_mod.resolve(arg, data, **kw), PTR_ERRORS, "pointer.resolve", details)
        ctx.nontrivial("resolve", repr(arg))
    kind, p = family(lambda: JSONPointer(text, **kw), PTR_ERRORS, "JSONPointer()", details)
    if kind == "error":
        ctx.label("pointer refused")
        ctx.nontrivial("refused", text)
    else:
        ctx.label("pointer accepted")
        ctx.nontrivial("accepted", text)
        ctx.label("resolution: " + family(lambda: p.resolve(data), JSONPointerResolutionError, "resolve", details)[0])
        family(lambda: p.resolve(data, default=None), JSONPointerResolutionError, "resolve with a default", details)
        family(lambda: p.exists(data), (), "exists", details)
        family(lambda: p.resolve_parent(data), JSONPointerResolutionError, "resolve_parent", details)
        family(lambda: (str(p), repr(p), hash(p), p == p, p.parent(), p.is_relative_to(p)), (), "str, repr, hash, ==, parent or is_relative_to", details)
        other = pointer_text(src, doc)
        details["other"] = ascii(other)[:2000]
        family(lambda: p / other, PTR_ERRORS, "/", details)
        family(lambda: p.join(other, text), PTR_ERRORS, "join", details)
    rel = relative_text(src, doc)
    details["relative"] = ascii(rel)[:2000]
    rkw = {"unicode_escape": kw["unicode_escape"], "uri_decode": kw["uri_decode"]}
    kind, r = family(lambda: RelativeJSONPointer(rel, **rkw), REL_ERRORS, "RelativeJSONPointer()", details)
    ctx.label("relative pointer " + ("refused" if kind == "error" else "accepted"))
    ctx.nontrivial("relative", rel)
    if kind == "ok":
        family(lambda: (str(r), repr(r), r == r), (), "str, repr or == of a relative pointer", details)
    if isinstance(p, JSONPointer):
        if kind == "ok":
            base = p if src.bool() else text
            kind, q = family(lambda: r.to(base, **rkw), REL_ERRORS, "RelativeJSONPointer.to()", details)
            if kind == "ok":
                ctx.label("relative pointer applied")
                family(lambda: q.resolve(data), JSONPointerResolutionError, "resolve", details)
                family(lambda: q.exists(data), (), "exists", details)
                family(lambda: q.resolve_parent(data), JSONPointerResolutionError, "resolve_parent", details)
                family(lambda: (str(q), repr(q), hash(q)), (), "str, repr, hash", details)
        family(lambda: p.to(rel, **rkw), REL_ERRORS, "JSONPointer.to()", details)
    ctx.sample({"pointer": ascii(text)[:200], "relative": ascii(rel)[:200], "document": jsongen.short(doc)[:200]})


# -- patches ----------------------------------------------------------------------------------

OPNAMES = ["add", "remove", "replace", "move", "copy", "test", "addne", "addap"]
JUNK = [None, True, 0, 1, 1.5, "", "a", "add", "/", "/a", [], ["a"], {}, {"a": 1}, "Add", "ADD", " add", "/0", "/-"]


def patch_op(src, doc, pool):
    k = src.draw(10)
    if k < 6:
        o = patchgen.op(src, doc, pool, OPNAMES)
    else:
        o = {"op": src.choice(OPNAMES), "path": pointer_text(src, doc)}
        if o["op"] in ("move", "copy"):
            o["from"] = pointer_text(src, doc)
        elif o["op"] != "remove":
            o["value"] = patchgen.value(src, pool)
    while src.bool(1, 8):
        j = src.draw(6)
        key = src.choice(["op", "path", "from", "value"])
        if j < 2:
            o.pop(key, None)
        elif j < 5:
            o[key] = jsongen.copy(src.choice(JUNK)) if src.bool() else pointer_text(src, doc)
        else:
            o[src.choice(["extra", "", "Op", "value"])] = src.choice(JUNK)
    return o


def patch_case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.copy(src.choice(DOCS)) if src.bool(1, 3) else jsongen.gen_doc(src, pool)
    ops = [patch_op(src, doc, pool) for _ in range(src.count(1, 6, 1, 2))]
    if src.bool(1, 12):
        ops.insert(src.draw(len(ops) + 1), jsongen.copy(src.choice(JUNK)))
    data = json.dumps(doc) if isinstance(doc, str) else doc
    kw = {"unicode_escape": src.bool(3, 4), "uri_decode": src.bool(1, 6)}
    details = {"patch": ascii(ops)[:4000], "document": jsongen.short(doc), **kw}
    arg = json.dumps(ops) if src.bool(1, 6) else ops
    if src.bool(1, 6):
        family(lambda: patch_mod.apply(arg, data if isinstance(data, str) else jsongen.copy(data), **kw), JSONPatchError, "patch.apply", details)
    kind, p = family(lambda: JSONPatch(arg, **kw), JSONPatchError, "JSONPatch()", details)
    ctx.nontrivial(repr(ops), repr(doc))
    if kind == "error":
        ctx.label("patch refused")
        return
    ctx.label("patch built")
    kind, _ = family(lambda: p.apply(data), JSONPatchError, "apply", details)
    ctx.label("patch failed" if kind == "error" else "patch applied")
    family(lambda: p.asdicts(), (), "asdicts", details)
    ctx.sample({"patch": ascii(ops)[:300], "document": jsongen.short(doc)[:200], "applied": kind})


# -- every pair of values ---------------------------------------------------------------------

PATTERNS = [
    "(?P<a>a)(?P<a>a)", "(?L)a", "a{2,1}", "a**", "(?<=a+)b", "(?<=a{4294967294})", "\\N{x}", "\\8", "\\", "[b-a]", "(?:a", "(?#", "\ud800", "\x00", "a{1000}{1000}",
    "(?i", "(?P<1>a)", "(?(9)a|b)", "(?u)(?a)a", "\\x", "[[:alpha:]]", "é", "(?>a)", "a++",
]
VALUES = [
    *EVERY, *PATTERNS, -0.0, 1e-320, "undefined", "object", "int", "\u0661", " ", "/", [None], [[]], [1, "a", None, True], ["a"], ["a", ["a"]], {"": 0}, {"a": None}, {"a": {"a": []}, "b": "("},
]
TERMS = ["@.a", "@.b", "@.c", "@", "$[0].a", "_.a", "_", "#", "@.a[0]", "@.a.a", "@['a', 'b']", "@..a", "@.*", "value(@.b)", "length(@.a)", "count(@.*)", "typeof(@.b)", "keys(@.a)"]
LITERALS = ["1", "-1.5", "1e999", "'a'", "'('", "''", "true", "null", "undefined", "[]", "[1, 'a', null]", "/a/", "/[(]/i"]
OPERATORS = ["==", "!=", "<>", "<", "<=", ">", ">=", "in", "contains", "=~", "&&", "||"]
CALLS = ["match", "search", "length", "count", "value", "isinstance", "is", "typeof", "type", "keys", "nosuch"]


def operand_pairs():
    for op in OPERATORS:
        for a in TERMS:
            for b in [*TERMS[:12], *LITERALS]:
                yield f"$[?{a} {op} {b}]"
        for a in LITERALS:
            for b in TERMS[:6]:
                yield f"$[?{a} {op} {b}]"
    for f in CALLS:
        for a in [*TERMS, *LITERALS]:
            yield f"$[?{f}({a})]"
            yield f"$[?{f}({a}) == @.b]"
            yield f"$[?@.a in {f}({a})]"
        for a in TERMS[:12]:
            for b in [*TERMS[:8], *LITERALS]:
                yield f"$[?{f}({a}, {b})]"
        yield f"$[?{f}()]"


SEGMENTS = [
    ".a", ".b", "[0]", "[1]", "[-1]", "[-2]", "['0']", "['']", "[:]", "[::-1]", "[1:]", "[:-1]", "[::2]", "[5:0:-2]", "[::0]", ".*", "..a", "..*", "..[0]", "..['a', 0]", "[~]", "..~", "['a', 'b', 0, *]",
    "[?@]", "[?@.a]", "[?@[0]]", "[?!@.a]", "[?@ == 1]", "[?# == 'a']", "[?$]", "[?_.a]", "[?@ in $]", "[?$ contains @]",
]


def segment_pairs():
    for a in SEGMENTS:
        for b in SEGMENTS:
            yield "$" + a + b
            yield "^" + a + b
    for a in SEGMENTS:
        for op in "|&":
            for b in SEGMENTS[:16]:
                yield f"$..*{a} {op} $.*{b}"


PAIR_ENVS = [*ENVS[:2], JSONPathEnvironment(well_typed=False, filter_caching=False)]


def every_query(tier):
    for q in operand_pairs():
        yield ("pairs", q)
    for q in segment_pairs():
        yield ("values", q)


_LOOP = [None]


def drive(coro):
    if _LOOP[0] is None or _LOOP[0][0] != os.getpid():
        _LOOP[0] = (os.getpid(), asyncio.new_event_loop())
    return _LOOP[0][1].run_until_complete(coro)


# One object per value, so that every value meets many others in few documents.
PAIR_DOCS = [[{"a": v, "b": VALUES[(i * k + k) % len(VALUES)]} for i, v in enumerate(VALUES)] for k in (1, 3, 7, 11, 20)]
STRING_DOCS = [[{"a": s, "b": p, "c": 1} for p in VALUES] for s in ("", "a", "ab", "é\n(", "\ud800")]
VALUE_DOCS = [VALUES, {str(i): v for i, v in enumerate(VALUES)}, {"a": VALUES, "b": {"a": "x", "b": [VALUES]}}, "a", 1, None, True, 1.5, [], {}, "", [[[]]], {"a": {"a": {}}}]


def every_case(case, ctx):
    kind, text = case
    details = {"query": text}
    n = 0
    for e, env in enumerate(PAIR_ENVS):
        k, path = family(lambda: env.compile(text), JSONPathError, "compile", details)
        if k == "error":
            continue
        if kind == "values":
            docs = VALUE_DOCS
        elif "match" in text or "search" in text:
            docs = STRING_DOCS + PAIR_DOCS
        else:
            docs = [PAIR_DOCS[n % 5], PAIR_DOCS[(n + 2) % 5]] if e else PAIR_DOCS
        for doc in docs:
            n += 1
            context = CONTEXTS[n % len(CONTEXTS)]
            arg = {} if context is None else {"filter_context": context}
            data = json.dumps(doc) if isinstance(doc, str) else doc
            details = {"query": text, "document": jsongen.short(doc), "filter_context": repr(context)[:500], "environment": e}
            _Metered.steps, _Metered.limit = 0, 10 * LIMIT
            k, out = family(lambda: path.findall(data, **arg), JSONPathError, "evaluation", details)
            if n % 3 == 0:
                k, out = family(lambda: drive(path.findall_async(data, **arg)), JSONPathError, "asynchronous evaluation", details)
            ctx.evals += 1
            if k == "ok" and out:
                ctx.nontrivial(text, n)


def every_token(tier):
    for i in range(len(PTR_TOKENS)):
        yield i


def every_token_case(i, ctx):
    """Every token against every value, at the end and in the middle of a pointer, in pointers and in patches."""
    t = PTR_TOKENS[i]
    for text in ("/" + t, "/" + t + "/0", "/a/" + t, "/0/" + t, "/" + t + "/" + t):
        for kw in ({}, {"unicode_escape": False}, {"uri_decode": True}):
            details = {"pointer": ascii(text)[:2000], **kw}
            k, p = family(lambda: JSONPointer(text, **kw), PTR_ERRORS, "JSONPointer()", details)
            k2, q = family(lambda: RelativeJSONPointer("1" + text, **kw), REL_ERRORS, "RelativeJSONPointer()", details)
            for v in VALUES if not kw else VALUES[-8:]:
                doc = {"a": v, "": v} if text.startswith("/a") else [v] if text.startswith("/0/") else v
                data = json.dumps(doc) if isinstance(doc, str) else doc
                details["document"] = jsongen.short(doc)
                ctx.evals += 1
                if k == "ok":
                    ctx.nontrivial(text, repr(v), repr(kw))
                    family(lambda: p.resolve(data), JSONPointerResolutionError, "resolve", details)
                    family(lambda: p.resolve_parent(data), JSONPointerResolutionError, "resolve_parent", details)
                    family(lambda: p.exists(data), (), "exists", details)
                if kw:
                    continue
                for op in OPNAMES:
                    o = {"op": op, "path": text, "from": "/a" if i % 2 else text, "value": v}
                    if op in ("move", "copy") and i % 3 == 0:
                        o["path"], o["from"] = o["from"], text
                    details["operation"] = ascii(o)[:2000]
                    kk, patch = family(lambda: JSONPatch([o]), JSONPatchError, "JSONPatch()", details)
                    if kk == "ok":
                        family(lambda: patch.apply(json.dumps(doc) if isinstance(doc, str) else jsongen.copy(doc)), JSONPatchError, "apply", details)
                details.pop("operation", None)
            if k == "ok" and k2 == "ok":
                family(lambda: q.to(p), REL_ERRORS, "to", details)


PROPS = [
    Enum("every pair", every_query, every_case),
    Enum("every token", every_token, every_token_case),
    Prop("soup", soup_case, quick=250000),
    Prop("grammar", grammar_case, quick=300000),
    Prop("mutation", mutation_case, quick=120000),
    Prop("characters", chars_case, quick=60000),
    Prop("pointers", pointer_case, quick=120000),
    Prop("patches", patch_case, quick=100000),
]
