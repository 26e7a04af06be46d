"""C13: documented non-standard syntax means what the documentation says."""

from __future__ import annotations

import asyncio
import itertools
import json
import re
import warnings

from .. import jsongen, qgen, refq
from ..engine import Discard, Enum, Prop, Violation
from ..lib import call, describe, jsonpath
from . import c07

warnings.simplefilter("ignore", FutureWarning)
warnings.simplefilter("ignore", DeprecationWarning)

BIG_INT_NAMES = True
RULE = (
    "extended: random queries dense in extension constructs (keys selector, fake root, current key, filter context, "
    "membership, =~, undefined, and every word and alias spelling), nested in lists, descendants and filters, x "
    "documents x filter contexts, against a reference evaluator written from the documentation. aliases: the same "
    "query tree in standard and in extended spelling must select the same nodes; rewritten trees (undefined tests to "
    "existence tests, in to contains, fake root to a wrapped document) too. Exhaustive: every operand pair under <>, "
    "in and contains; every regular expression, flag set and subject; every literal alias in every literal position; "
    "every word spelling of logical expressions of up to three terms; every bare name; aliases in well- and ill-typed queries, refused exactly where the standard spelling is. Non-trivial: an extension "
    "construct is present and the result is non-empty, or an alias differs from its standard spelling; distinct by "
    "text and document."
)

ASSUMPTIONS = [
    "=~ is decided by Python's re.fullmatch on the literal's pattern and flags; a non-string never matches",
    "x in y: equality with an element of an array, substring of a string, member name of an object, otherwise false; "
    "nothing is never a member",
    "the location of nodes under the fake root, and of member names, is not judged here",
]


class ExtGen(qgen.Gen):
    """Like Gen, with more extension constructs in filters."""

    def sub_query(self, cur, depth, singular):
        s = self.src
        k = s.draw(12)
        if k < 7:
            root, at = "@", cur
        elif k == 7:
            root, at = "$", self.doc
        elif k < 10:
            root, at = "_", {} if self.context is None else self.context
        else:
            root, at = "^", [self.doc]
        lo = 1 if root in "$^" and not s.bool(1, 6) else 0 if s.bool(1, 4) else 1
        saved = self.budget
        segs, end = self.segments(at, depth if s.bool() else 0, 3, singular=singular, lo=lo)
        self.budget = min(self.budget, saved - 1)
        return ("q", root, segs), end

    def logical(self, cur, depth, lvl=2):
        if self.src.bool(1, 3):
            return self.ext_test(cur, depth)
        return super().logical(cur, depth, lvl)


EXT = {"sel-k", "root^", "root_", "key", "in", "contains", "=~", "undef", "list", "compound"}


def context_for(src, pool):
    if src.bool(1, 5):
        return None
    return {src.choice(pool): jsongen.gen_value(src, pool, 3, [12]) for _ in range(src.int(0, 3))}


async def _async(text, doc, arg):
    return [m.obj async for m in await jsonpath.finditer_async(text, doc, **arg)]


def values(text, doc, context, route, details):
    arg = {} if context is None else {"filter_context": context}
    data = json.dumps(doc) if isinstance(doc, str) else doc
    if route == 1:
        return call(lambda: [m.obj for m in jsonpath.finditer(text, data, **arg)], what=f"finditer({text!r})", details=details)
    if route == 2:
        return call(lambda: asyncio.run(_async(text, data, arg)), what=f"finditer_async({text!r})", details=details)
    if route == 3:
        return call(lambda: list(jsonpath.compile(text).query(data, **arg).values()), what=f"query({text!r})", details=details)
    return call(lambda: jsonpath.findall(text, data, **arg), what=f"findall({text!r})", details=details)


def same_list(got, want):
    return len(got) == len(want) and all(jsongen.same(g, w) for g, w in zip(got, want))


def extended_case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, shared=True)
    context = context_for(src, pool)
    qs = []
    for _ in range(1 if src.bool(7, 8) else src.int(2, 3)):
        g = ExtGen(src, doc, pool, filters=src.bool(6, 7), ext=True, context=context, max_segs=3, fdepth=3 if src.bool(1, 3) else 2, max_desc=2)
        qs.append(g.query("^" if src.bool(1, 5) else "$"))
    q = qs[0] if len(qs) == 1 else ("comp", qs[0], [(src.choice("|&"), p) for p in qs[1:]])
    text = qgen.Render(src, ext=True).top(q)
    ref = [n[1] for n in refq.find(q, doc, context)]
    details = {"query": text, "document": jsongen.short(doc), "filter_context": repr(context)[:1000], "tree": repr(q)[:2000]}
    got = values(text, doc, context, src.weighted([(6, 0), (2, 1), (1, 2), (1, 3)]), details)
    if not same_list(got, ref):
        raise Violation(
            "the query does not select what the documentation says", expected=jsongen.short(ref),
            got=repr(got)[:4000], **details,
        )
    feats = qgen.features(q)
    for f in feats:
        ctx.label(f)
    if ref and feats & EXT:
        ctx.nontrivial(text, jsongen.short(doc))
        ctx.sample({"query": text, "document": jsongen.short(doc, 300), "nodes": len(ref)})


# -- aliases -------------------------------------------------------------------

def rewrite(src, e):
    """An equivalent tree in other constructs, where there is one."""
    if not isinstance(e, tuple):
        return [rewrite(src, x) for x in e] if isinstance(e, list) else e
    if e[0] in ("lit", "list", "re", "n", "i", "s", "w", "k", "key", "undef"):
        return e
    if e[0] == "cmp":
        _, op, a, b = e
        if op in ("==", "!="):
            if b == ("undef",):
                a, b = b, a
            if a == ("undef",) and b[0] == "q":
                ex = ("ex", rewrite(src, b))
                return ("not", ex) if op == "==" else ex
        if op in ("in", "contains"):
            return ("cmp", "contains" if op == "in" else "in", rewrite(src, b), rewrite(src, a))
        return ("cmp", op, rewrite(src, a), rewrite(src, b))
    if e[0] == "not" and e[1][0] == "ex" and refq_singular(e[1][1]):
        return ("cmp", "==", rewrite(src, e[1][1]), ("undef",))
    if e[0] == "ex" and refq_singular(e[1]) and e[1][2]:
        return ("cmp", "!=", ("undef",), rewrite(src, e[1]))
    return tuple(rewrite(src, x) if isinstance(x, (tuple, list)) else x for x in e)


def refq_singular(q):
    return all(kind == "c" and len(sels) == 1 and sels[0][0] in ("n", "i") for kind, sels in q[2])


def uses(q, root):
    return f"('q', '{root}'" in repr(q)


def outcome(text, doc, context):
    arg = {} if context is None else {"filter_context": context}
    data = json.dumps(doc) if isinstance(doc, str) else doc
    try:
        return ("ok", [m.obj for m in jsonpath.finditer(text, data, **arg)], [m.parts for m in jsonpath.finditer(text, data, **arg)])
    except Discard:
        raise
    except Exception as err:
        return ("error", describe(err))


def alias_case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, shared=True)
    context = context_for(src, pool)
    k = src.draw(4)
    ext = k > 0
    cls = ExtGen if ext else qgen.Gen
    g = cls(src, doc, pool, filters=src.bool(6, 7), ext=ext, context=context, max_segs=3, fdepth=2, max_desc=2)
    q = g.query("$")
    plain = qgen.Render(src)
    doc2, parts = doc, True
    if k == 2:
        q2 = rewrite(src, q)
    elif k == 3:
        # the fake root is the root of the wrapped document
        if uses(q[2], "$") or uses(q[2], "^"):
            raise Discard
        q2, q = q, ("q", "^", q[2])
        doc2, parts = [doc], False
    else:
        q2 = q
    refq.find(q, doc, context)  # discards the expensive
    a = qgen.Render(src, ext=True).top(q)
    b = plain.top(q2)
    details = {"query": a, "equivalent": b, "document": jsongen.short(doc), "document_of_equivalent": jsongen.short(doc2), "filter_context": repr(context)[:1000]}
    got, want = outcome(a, doc, context), outcome(b, doc2, context)
    ok = got[0] == want[0]
    if ok and got[0] == "ok":
        ok = len(got[1]) == len(want[1]) and all(jsongen.same(x, y) for x, y in zip(got[1], want[1]))
        if parts and got[2] != want[2]:
            ok = False
    if not ok:
        raise Violation("the two spellings are different queries", got=repr(got)[:2000], expected=repr(want)[:2000], **details)
    if got[0] == "error":
        ctx.label("both refused")
        return
    ctx.label(("spelling", "spelling of extensions", "rewritten", "fake root")[k])
    if a != b and got[1]:
        ctx.nontrivial(a, jsongen.short(doc))
        ctx.sample({"query": a, "equivalent": b, "document": jsongen.short(doc, 300)})


# -- exhaustive ----------------------------------------------------------------

VALS = [None, True, False, 0, 1, 1.0, -1, 1.5, "", "a", "ab", "1", "true", [], [1], ["a", None, False], [[1]], {}, {"a": 1}, {"ab": None, "1": 2}, [{"a": 1}], [0, 1.0], [True]]
PAIRS = [[x, y] for x in VALS for y in VALS] + [[x] for x in VALS] + [[], None, {"0": "a", "1": "ab"}, {"0": 1}]
LITS = ["null", "true", "false", "0", "1", "1.0", "''", "'a'", "'ab'", "1.5", "-1"]
LISTS = ["[]", "[1]", "['a', null]", "[1.0, 'ab', false]", "[true]"]
CONTEXT = {"v": "a", "n": 1, "l": [1, "a", None], "o": {"a": {"b": ["ab"]}, "1": 0}, "s": "abc", "e": None}
PATHS = ["@[0]", "@[1]", "@[1].a", "@['0']", "$[30][0]", "$[50][1]", "_.v", "_.n", "_.l", "_.o", "_.s", "_.e", "_.o.a.b", "_.q", "_", "#", "^[0][1][0]"]
FUNCS = ["length(@[0])", "count(@.*)", "value(@[1])", "value($..zz)"]
OPERANDS = [*PATHS, *LITS, *FUNCS]

TOKEN = re.compile(r"\['?(\w+)'?\]|\.(\w+)")


def tree(text):
    """Operand text (of the above) as a tree."""
    if text == "#":
        return ("key",)
    if text in ("undefined", "missing"):
        return ("undef",)
    if text.startswith("["):
        return ("list", json.loads(text.replace("'", '"')))
    if text[0] in "@$_^":
        segs = []
        for m in TOKEN.finditer(text):
            name = m.group(1) or m.group(2)
            quoted = "'" in m.group() or m.group(2)
            segs.append(("c", [("n", name) if quoted else ("i", int(name))]))
        return ("q", text[0], segs)
    if text == "length(@[0])":
        return ("fn", "length", [tree("@[0]")])
    if text == "count(@.*)":
        return ("fn", "count", [("q", "@", [("c", [("w",)])])])
    if text == "value(@[1])":
        return ("fn", "value", [tree("@[1]")])
    if text == "value($..zz)":
        return ("fn", "value", [("q", "$", [("d", [("n", "zz")])])])
    return ("lit", json.loads(text.replace("'", '"')))


def select(text, doc, context=None):
    d = {"query": text, "document": jsongen.short(doc, 20000), "filter_context": repr(context)}
    arg = {} if context is None else {"filter_context": context}
    return call(lambda: [m.parts for m in jsonpath.finditer(text, doc, **arg)], what=f"finditer({text!r})", details=d), d


def agree_with(text, cond, ctx, doc):
    """The candidates selected by a filter, against the reference."""
    got, d = select(f"$[?{text}]", doc, CONTEXT)
    env = refq.Env(doc, CONTEXT)
    env.budget.n = 10**9
    want = [(i,) for i, v in enumerate(doc) if refq.truth(env, cond, v, i)]
    ctx.evals += len(doc)
    if got != want:
        wrong = sorted(set(got) ^ set(want))[:10]
        d.pop("document")
        raise Violation("the filter does not select what the documentation says", wrong=[[i, doc[i[0]], i in got] for i in wrong], **d)
    if got:
        ctx.nontrivial(text)


def alias(a, b, doc, ctx, context=CONTEXT):
    got, d = select(a, doc, context)
    want, _ = select(b, doc, context)
    ctx.evals += 1
    if got != want:
        raise Violation("the alias does not select what the standard spelling does", standard=b, got=repr(got)[:2000], expected=repr(want)[:2000], **d)
    if got:
        ctx.nontrivial(a)


def membership_cases(tier):
    for a in [*OPERANDS, "undefined"]:
        for b in [*OPERANDS, *LISTS, "missing"]:
            yield (a, b)
    for a in LISTS:
        for b in LISTS + ["_.l", "@[1]", "'a'"]:
            yield (a, b)


def membership_case(c, ctx):
    a, b = c
    ta, tb = tree(a), tree(b)
    # All pairs of values if both operands look at the candidate, or some of them.
    doc = PAIRS if a in PATHS[:4] and b in PATHS[:4] else PAIRS[(len(a) + len(b)) % 5 :: 5]
    agree_with(f"{a} in {b}", ("cmp", "in", ta, tb), ctx, doc)
    agree_with(f"{b} contains {a}", ("cmp", "in", ta, tb), ctx, doc)
    agree_with(f"!({a} in {b})", ("not", ("cmp", "in", ta, tb)), ctx, doc)
    if "[" != a[0] and "[" != b[0]:
        alias(f"$[?{a} <> {b}]", f"$[?{a} != {b}]", doc, ctx)
        doc = doc[::4]
        alias(f"$[?@[?{a} <> {b}] and not ({a}<>{b})]", f"$[?@[?{a} != {b}] && !({a}!={b})]", doc, ctx)


def undefined_cases(tier):
    return [p for p in PATHS if p != "#"] + ["@", "@.a", "$.zz", "$", "@[-1]", "@['a']['ab']", "_['o']", "^", "^[0]", "^[1]"]


def undefined_case(p, ctx):
    for w in ("undefined", "missing"):
        for neg, texts in (("!", [f"{p} == {w}", f"{w}=={p}", f"!({p} != {w})", f"not ({w} <> {p})"]), ("", [f"{p} != {w}", f"{w}!={p}", f"{p} <> {w}", f"!({p} == {w})"])):
            for t in texts:
                alias(f"$[?{t}]", f"$[?{neg}{p}]", PAIRS, ctx)
                alias(f"$[?@[?{t}]]", f"$[?@[?{neg}{p}]]", PAIRS[::3], ctx)
                alias(f"$..[?{t} && @[0] || {t}]", f"$..[?({neg}{p} && @[0]) || {neg}{p}]", PAIRS[::5], ctx)


REGEXES = ["a", "a|ab", "a|b", ".", ".*", "a.b", "[a-c]+", "^a$", "a$", "^", "\\\\w+", "\\w", "\\W", "\\d*", "\\s", "é", "É|x", "(a)(b)?", "a{2}", "(?:ab)*", "a?b??", "\\.", "[^a]*", "A", "^b", "a\\Z", "\\n", "a\nb", "\\u0061", "'", '"', "]", "[)]", "$", "[.]", "ß|K", "a b", "\\bab\\b", "(?i)a"]
FLAGS = ["", "i", "s", "m", "a", "is", "im", "ms", "ai", "ims", "aims", "ii"]
SUBJECTS = ["", "a", "A", "b", "ab", "aB", "abab", "ba", "aa", "a\n", "\na", "a\nb", "axb", "é", "É", "1", "١", " ", "\n", ".", "a.b", "'", '"', "]", ")", "ſ", "k", "K", "ß", "a b", "\\w", "\\", "x", "abc", 1, 0, None, True, ["a"], {"a": "a"}, []]


def regex_cases(tier):
    for r in REGEXES:
        yield r


def regex_case(r, ctx):
    for f in FLAGS:
        flags = 0
        for ch in f:
            flags |= refq.PYFLAGS[ch]
        want = re.compile(r, flags)
        hits = [(i,) for i, s in enumerate(SUBJECTS) if isinstance(s, str) and want.fullmatch(s)]
        miss = [(i,) for i in range(len(SUBJECTS)) if (i,) not in hits]
        for text, doc, exp in (
            (f"$[?@ =~ /{r}/{f}]", SUBJECTS, hits),
            (f"$[?@=~/{r}/{f} ]", SUBJECTS, hits),
            (f"$[?!(@ =~ /{r}/{f})]", SUBJECTS, miss),
            (f"$[?not (@=~/{r}/{f}) or @ =~ /{r}/{f} and false == true]", SUBJECTS, miss),
            (f"$[?@.x =~ /{r}/{f}]", [{"x": s} for s in SUBJECTS], hits),
            (f"$[?# =~ /{r}/{f}]", {s: 1 for s in SUBJECTS if isinstance(s, str)}, [(SUBJECTS[i[0]],) for i in hits]),
            (f"$[?_.s[0] =~ /{r}/{f} && @ =~ /{r}/{f}]", SUBJECTS, None),
            (f"$[?value(@.x) =~ /{r}/{f}]", [{"x": s} for s in SUBJECTS], hits),
        ):
            if exp is None:
                for s in ("a", "ab", 1):
                    got, d = select(text, doc, {"s": [s]})
                    e = hits if isinstance(s, str) and want.fullmatch(s) else []
                    if got != e:
                        raise Violation("=~ is not a full match of the pattern", got=repr(got), expected=repr(e), **d)
                continue
            got, d = select(text, doc)
            ctx.evals += 1
            if got != exp:
                raise Violation("=~ is not a full match of the pattern", got=repr(got), expected=repr(exp), **d)
            if got:
                ctx.nontrivial(text)


ALIASES = {"null": ["nil", "none", "Null", "Nil", "None"], "true": ["True"], "false": ["False"]}
LIT_POS = [
    "$[?@[0] == {}]", "$[?{} == @[0]]", "$[?@[0]!={}]", "$[?@[0] <= {}]", "$[?@[0] in [{}]]", "$[?@[0] in [1,{}, 'a']]", "$[?[{} ] contains @[0]]",
    "$[?{} in @[1]]", "$[?@[1] contains {}]", "$[?@[0] == {} && @[1]]", "$[?@[0]=={}||@[1]=={}]", "$[?!(@[0] == {})]", "$..[?@ == {}]",
    "$[?@[?@ == {}]]", "$[?length({}) == 1 || @[0] == {}]", "$[?search({}, 'a') || @[1] == {}]", "$[?match('a', {}) || {} == @[1]]",
    "$[?({} == @[0])]", "$[?{} == {}]", "$[?{} in [{},{}]]", "$[?_.e == {}]", "$[?# != {} && @[0] == {}]", "$[0, ?@[1]=={} ]", "$[?@[0] == {}\n]",
]


def literal_cases(tier):
    for std, others in ALIASES.items():
        for o in others:
            for p in LIT_POS:
                yield (std, o, p)


def literal_case(c, ctx):
    std, o, p = c
    alias(p.replace("{}", o), p.replace("{}", std), PAIRS, ctx)


TERMS = ["@[0]", "@[1] == 'a'", "match(@[0],'a.*')", "@[?@ == 1]", "count(@.*)>1", "# > 20", "@[0] in @[1]", "_.l[1] == @[0]"]
WORD = {"&&": "and", "||": "or"}


def word_cases(tier):
    for n in (1, 2, 3):
        for ts in itertools.permutations(range(len(TERMS)), n) if n < 3 else [(a, b, c) for a, b, c in itertools.permutations(range(len(TERMS)), 3) if (a + 2 * b + 3 * c) % 7 == 0]:
            yield ts


def word_case(ts, ctx):
    n = len(ts)
    for ops in itertools.product(["&&", "||"], repeat=n - 1):
        for negs in itertools.product([0, 1], repeat=n):
            for group in range(3 if n == 3 else 1):
                terms = [(TERMS[t] if not g else ("!" + (TERMS[t] if re.fullmatch(r"@\[0\]|match.*|@\[\?.*", TERMS[t]) else f"({TERMS[t]})"))) for t, g in zip(ts, negs)]
                std = terms[0]
                for i, (o, t) in enumerate(zip(ops, terms[1:])):
                    std = f"{std} {o} {t}"
                    if group == 1 and i == 0:
                        std = f"!({std})"
                if group == 2:
                    std = f"{terms[0]} {ops[0]} ({terms[1]} {ops[1]} {terms[2]})"
                for mode in range(1, 4):
                    ext = std
                    if mode & 1:
                        ext = ext.replace("&&", "and").replace("||", "or")
                    if mode & 2:
                        ext = re.sub(r"!(?!=)", "not ", ext)
                    if ext != std:
                        alias(f"$[?{ext}]", f"$[?{std}]", PAIRS[::14], ctx)
                        if mode == 3:
                            # no blanks but those that keep words apart
                            tight = re.sub(r"\s*(&&|\|\|)\s*", r"\1", std)
                            alias(f"$[?{ext}]", f"$[?{tight}]", PAIRS[3::17], ctx)
                            close = re.sub(r"\b(and|or|not) \(", r"\1(", ext)
                            close = re.sub(r"\) (and|or)\b", r")\1", close)
                            alias(f"$[?{close}]", f"$[?{std}]", PAIRS[::19], ctx)


NAMES = sorted(
    ({
        k for c in (jsongen.SIMPLE, jsongen.RESERVED, jsongen.ODD, jsongen.UNI, jsongen.NONBMP) for k in c
        if qgen.RE_SHORTHAND.fullmatch(k) and k not in qgen.RESERVED
    }
    | {"andy", "orb", "nota", "inx", "trues", "nulls", "nils", "nonesuch", "containsx", "missings", "undefined_", "in1", "or_", "and2", "é", "_a", "__", "a_", "true_", "Nully", "notin", "a1", "A", "日本", "eq", "e1", "E5", "len", "i", "T", "x-y", "a-", "b--1", "and-or", "in-", "_-"}
    | {
        w + e
        for w in ("and", "or", "not", "in", "contains", "true", "False", "nil", "Null", "none", "undefined", "missing")
        for e in ("x", "1", "_", "-", "\u0080", "\u00a0", "·", "\u2028", "日", "\uffff", "\U00010000", "😀", "\U0010ffff")
    }
    | {e + w for w in ("and", "or", "in", "not") for e in ("é", "😀", "_", "a-")})
    - {"_"}
)
# As in Lexer.key_pattern, bare names may hold hyphens, unlike the standard's shorthand.


def name_cases(tier):
    return NAMES


def name_case(n, ctx):
    q = json.dumps(n, ensure_ascii=False)
    doc = {n: {n: [1, {n: 2}], "x": {n: 3}}, "x": [{n: 4}, {"x": 5}], "z": n}
    for a, b in [
        ("{n}", "$[{q}]"), (".{n}", "$[{q}]"), ("[{n}]", "$[{q}]"), ("$[{n}]", "$[{q}]"), ("$[ {n} ]", "$[{q}]"),
        ("[{q}]", "$[{q}]"), ("{n}.{n}", "$[{q}][{q}]"), ("{n}[{n}]", "$[{q}][{q}]"), ("{n}['{n}'][0]", "$[{q}][{q}][0]"),
        ("..{n}", "$..[{q}]"), ("$..[{n}]", "$..[{q}]"), ("..[{n}, x]", "$..[{q}, 'x']"), ("$[x, {n}, {n}]", "$['x', {q}, {q}]"),
        ("$[{n},x]", "$[{q},'x']"), ("$[0,{n}]", "$[0,{q}]"), ("$[{n}, *]", "$[{q}, *]"), ("$[{n}, ?@.x]", "$[{q}, ?@['x']]"),
        ("{n}..x", "$[{q}]..['x']"), ("{n}.*", "$[{q}].*"), ("$.{n}[{n}, x]..[{n}]", "$[{q}][{q}, 'x']..[{q}]"),
        ("$[?@[{n}]]", "$[?@[{q}]]"), ("$.x[?@[{n}] == 4]", "$['x'][?@[{q}] == 4]"), ("$[?@[{n}, x]]", "$[?@[{q}, 'x']]"),
        ("{n}[?@[{n}]]", "$[{q}][?@[{q}]]"), ("$..[?@[{n}] == 2 || @[{n}] == 4]", "$..[?@[{q}] == 2 || @[{q}] == 4]"),
        ("$..[?@ == $[z]]", "$..[?@ == $['z']]"), ("$[?count(@[{n}]) == 1]", "$[?count(@[{q}]) == 1]"), ("$[?# == {q}][{n}]", "$[{q}][{q}]"),
        ("{n} | x", "$[{q}] | $['x']"), ("{n}|$.x", "$[{q}] | $['x']"), ("x|{n}", "$['x'] | $[{q}]"), ("* & {n}", "$.* & $[{q}]"),
        ("[{n}] & *", "$[{q}] & $.*"), ("{n}.x|{n}[{n}][1] | ..{n}", "$[{q}].x|$[{q}][{q}][1] | $..[{q}]"), ("{n}\n.x", "$[{q}].x"),
        ("{n} ['x']", "$[{q}].x"), ("{n}[~]", "$[{q}][~]"), ("$[{n}, ~]", "$[{q}, ~]"), ("$.{n}.~", "$[{q}][~]"), ("^[0][{n}]", "$[{q}]"),
    ]:
        a, b = (t.replace("{n}", n).replace("{q}", q) for t in (a, b))
        if a.startswith("^"):
            got, d = select(a, doc)
            want, _ = select(b, [doc][0])
            if len(got) != len(want):
                raise Violation("a bare name under the fake root is not the quoted name", got=repr(got), **d)
            continue
        alias(a, b, doc, ctx, None)


ROOTLESS = ["a", ".a", "['a']", "[a]", "*", ".*", "[*]", "..a", "..*", "..[*]", "[0]", "[-1]", "[0:2]", "[::-1]", "[1,0]", "~", ".~", "[~]", "..~", "..[~]", "[?@.a]", "[?(@.a)]", "..[?@ == 1]", "a.b", "a['b']", "a[0]", "*.a", "[?# == 'a']", "[?@.a == $.a]", "[?^[0].a]", "a[?@.b]..c", "a..b", "~ | a", "a | *", "[0] & [*]", "* | ..a & [?@]", ""]
RDOCS = [{"a": {"b": [1, {"c": 1}]}, "b": {"a": 1}}, [1, {"a": 1}, [0, {"a": {"b": 1}}], {"a": {"b": 2}}], [], {}, {"a": [{"b": {"c": 1}}, {"b": 1, "c": 2}]}, ["a", "b"], {"0": 1, "-1": {"a": 1}}]


def rootless_cases(tier):
    return ROOTLESS


def rootless_case(t, ctx):
    full = " ".join("$" + ("" if x[:1] in "[." or x == "" else ".") + x if x not in ("|", "&") else x for x in t.split(" ") if x) if ("|" in t or " & " in t) and "?(" not in t and "@ ==" not in t and "[?#" not in t and "[?@.a ==" not in t else "$" + ("" if t[:1] in ("[", ".", "") else ".") + t
    for doc in RDOCS:
        alias(t, full, doc, ctx, None)


KEY_POS = [
    # query, where the member names of each candidate object go
    ("$[~]", lambda d: names(d)), ("$.~", lambda d: names(d)), ("~", lambda d: names(d)), ("[~]", lambda d: names(d)), ("$[ ~ ]", lambda d: names(d)),
    ("$[~, ~]", lambda d: names(d) * 2), ("$[~, 'a', ~]", lambda d: names(d) + ([d["a"]] if isinstance(d, dict) and "a" in d else []) + names(d)),
    ("$..~", lambda d: [k for v in everything(d) for k in names(v)]), ("$..[~]", lambda d: [k for v in everything(d) for k in names(v)]),
    ("$.*.~", lambda d: [k for v in kids(d) for k in names(v)]), ("$[*][~]", lambda d: [k for v in kids(d) for k in names(v)]),
    ("$[*, ~]", lambda d: kids(d) + names(d)), ("$[~].~", lambda d: []), ("$.~[0]", lambda d: []), ("$[~]..*", lambda d: []), ("$.~.a", lambda d: []),
    ("$..[~, 0]", lambda d: [x for v in everything(d) for x in names(v) + (v[:1] if isinstance(v, list) else [v["0"]] if isinstance(v, dict) and "0" in v else [])]),
    ("$[?@.~]", lambda d: [v for v in kids(d) if names(v)]), ("$[?!@[~]]", lambda d: [v for v in kids(d) if not names(v)]),
    ("$[?count(@.~) == 2]", lambda d: [v for v in kids(d) if len(names(v)) == 2]), ("$[?count(@[~]) == count(@.*)]", lambda d: [v for v in kids(d) if len(names(v)) == len(kids(v))]),
    ("$[?value(@.~) == 'a']", lambda d: [v for v in kids(d) if names(v) == ["a"]]), ("$[?@.*.~]", lambda d: [v for v in kids(d) if any(names(w) for w in kids(v))]),
    ("$[?@[~][?@]]", lambda d: []), ("$[?length(value(@.~)) == 1]", lambda d: [v for v in kids(d) if len(names(v)) == 1 and len(names(v)[0]) == 1]),
    ("^[0][~]", lambda d: names(d)), ("^.~", lambda d: []), ("^.*.~", lambda d: names(d)), ("$[?count(^[0].~) == count(@.*)]", lambda d: [v for v in kids(d) if len(kids(v)) == len(names(d))]),
    ("^[~]", lambda d: []), ("^[?@.~]", lambda d: [d] if names(d) else []), ("^[?!@.~]", lambda d: [] if names(d) else [d]), ("^", lambda d: [[d]]), ("^[0]", lambda d: [d]), ("^[-1]", lambda d: [d]), ("^[1]", lambda d: []), ("^.*", lambda d: [d]), ("^[?@]", lambda d: [d]), ("^..*", lambda d: [d] + [x for v in everything(d) for x in kids(v)]),
    ("^[?# == 0]", lambda d: [d]), ("^[?#][0:]" if False else "^[0:]", lambda d: [d]), ("^[?@ == $]", lambda d: [d]), ("^[?@ == ^[0]]", lambda d: [d]), ("$[?^[0] == $]", lambda d: kids(d)), ("$[?@ == ^]", lambda d: [v for v in kids(d) if refq.json_eq(v, [d])]), ("^[?length(@) == 2]", lambda d: [d] if isinstance(d, (list, dict, str)) and len(d) == 2 else []),
    ("$[?#]" if False else "$[?# == 'a']", lambda d: [d["a"]] if isinstance(d, dict) and "a" in d else []),
    ("$[?# == 0]", lambda d: d[:1] if isinstance(d, list) else []), ("$[?# >= 1]", lambda d: d[1:] if isinstance(d, list) else []), ("$[?# in ['a', 1, '0']]", lambda d: [v for k, v in refq.children(d) if k in ("a", "0") or (k == 1 and isinstance(k, int))]),
    ("$[?# == '0']", lambda d: [d["0"]] if isinstance(d, dict) and "0" in d else []), ("$..[?# == 1]", lambda d: [v[1] for v in everything(d) if isinstance(v, list) and len(v) > 1]),
    ("$[?length(#) == 1]", lambda d: [v for k, v in refq.children(d) if isinstance(k, str) and len(k) == 1]), ("$[?match(#, 'a.?')]", lambda d: [v for k, v in refq.children(d) if isinstance(k, str) and re.fullmatch("a.?", k)]),
    ("$[?@[?# == 'a']]", lambda d: [v for v in kids(d) if isinstance(v, dict) and "a" in v]), ("$[?# == 'a' && @[?# == 0]]", lambda d: [d["a"]] if isinstance(d, dict) and isinstance(d.get("a"), list) and d["a"] else []),
    ("$[?@[?# == 0] && # == 'a']", lambda d: [d["a"]] if isinstance(d, dict) and isinstance(d.get("a"), list) and d["a"] else []),
    ("$[?@ == #]", lambda d: [v for k, v in refq.children(d) if refq.json_eq(v, k)]), ("$[?# in @]", lambda d: [v for k, v in refq.children(d) if is_in(k, v)]), ("$[?# < 'b']", lambda d: [v for k, v in refq.children(d) if isinstance(k, str) and k < "b"]),
    ("$[?#!=#]", lambda d: []), ("$[?# == undefined]", lambda d: []), ("$[?# != undefined]", lambda d: kids(d)), ("$[?# == null || # == true]", lambda d: []), ("$[?@[?# == #]]", lambda d: [v for v in kids(d) if kids(v)]),
    ("$[?count(@[?# == 1]) == 1]", lambda d: [v for v in kids(d) if isinstance(v, list) and len(v) > 1]), ("$[?@.*[?# == 'a']]", lambda d: [v for v in kids(d) if any(isinstance(w, dict) and "a" in w for w in kids(v))]),
    ("$['a', ?# == 'a']", lambda d: [d["a"]] * 2 if isinstance(d, dict) and "a" in d else []), ("$[?# == 0, ?# == 1]", lambda d: d[:2] if isinstance(d, list) else []),
]
KDOCS = [
    {}, [], {"a": 1}, {"b": 1, "a": 2}, [1, 2], [0, 1, 2], [{"a": 1}, {"b": 2, "c": {}}, [], [{"a": 1}]], {"a": {"a": {"a": 1}}, "b": {"x": 1, "y": 2}}, {"a": [{"b": 1}], "0": [5], "1": "1", "": {"": {}}},
    {"a": [[1, {"a": 0}]], "ab": "ab", "abc": "a"}, 1, "ab", None, "a", [[[{"k": [{"a": []}]}]]], {"~": {"~a": 1}, "#": {"#": 1}, "^": 1, "_": {"a": 2}}, [[0], [1, 0], {"a": 2, "0": 1}], {"a": "a", "b": ["b"], "c": {"c": 1}, "1": 1},
    {"é": {"é": 1}, "'": {'"': 1}, "\\": {"\n": 2}}, [None, True, False, 0, "", [], {}], {"a": None, "b": False, "c": 0}, [[["a"]], {"a": ["a"]}],
]


def names(v):
    return list(v) if isinstance(v, dict) else []


def kids(v):
    return [x for _, x in refq.children(v)]


def everything(d):
    out = [d]
    for x in kids(d):
        out += everything(x)
    return out


def is_in(k, v):
    if isinstance(v, (str, dict)):
        return isinstance(k, str) and k in v
    return isinstance(v, list) and any(refq.json_eq(k, x) for x in v)


def keys_cases(tier):
    for i in range(len(KEY_POS)):
        yield i


def keys_case(i, ctx):
    text, want = KEY_POS[i]
    for doc in KDOCS:
        for route in (0, 2, 3):
            d = {"query": text, "document": jsongen.short(doc)}
            got = values(text, doc, None, route, d)
            ctx.evals += 1
            w = want(doc)
            if not same_list(got, w):
                raise Violation("the query does not select what the documentation says", got=repr(got), expected=repr(w), **d)
            if w:
                ctx.nontrivial(text, jsongen.short(doc))


CTX_POS = [
    # query, condition on (candidate, key, context): what the filter context gives
    ("$[?_.k]", lambda v, k, c: "k" in c), ("$[?!_.k]", lambda v, k, c: "k" not in c), ("$[?@ == _.k]", lambda v, k, c: ("k" in c and refq.json_eq(v, c["k"]))),
    ("$[?_.k == @]", lambda v, k, c: ("k" in c and refq.json_eq(v, c["k"]))), ("$[?_['k'] == undefined]", lambda v, k, c: "k" not in c), ("$[?# == _.k]", lambda v, k, c: ("k" in c and refq.json_eq(k, c["k"]))),
    ("$[?_.o.p[1].q == @]", lambda v, k, c: refq.json_eq(v, 7) if "o" in c else False), ("$[?_..q]", lambda v, k, c: "o" in c), ("$[?count(_.*) == @]", lambda v, k, c: refq.json_eq(v, len(c))),
    ("$[?@ in _.l]", lambda v, k, c: is_member(v, c.get("l"))), ("$[?_.l contains @]", lambda v, k, c: is_member(v, c.get("l"))), ("$[?_.l[?@ == 1]]", lambda v, k, c: any(refq.json_eq(x, 1) for x in kids(c.get("l")))),
    ("$[?_.l[?@ == _.k]]", lambda v, k, c: "k" in c and any(refq.json_eq(x, c["k"]) for x in kids(c.get("l")))), ("$[?length(_.l) == @]", lambda v, k, c: "l" in c and refq.json_eq(v, len(c["l"]))), ("$[?value(_.k) == @]", lambda v, k, c: "k" in c and refq.json_eq(v, c["k"])),
    ("$[?match(@, _.k)]", lambda v, k, c: isinstance(v, str) and isinstance(c.get("k"), str) and re.fullmatch(c["k"], v)), ("$[?_]", lambda v, k, c: True), ("$[?_.*]", lambda v, k, c: bool(c)), ("$[?_[~]]", lambda v, k, c: bool(c)), ("$[?count(_.~) == @]", lambda v, k, c: refq.json_eq(v, len(c))),
    ("$[?@[?@ == _.k]]", lambda v, k, c: "k" in c and any(refq.json_eq(x, c["k"]) for x in kids(v))), ("$[?@[?@[?@ == _.k]]]", lambda v, k, c: "k" in c and any(refq.json_eq(y, c["k"]) for x in kids(v) for y in kids(x))),
    ("$[?$[?@ == _.k]]", None), ("$[?_[?# == 'k']]", lambda v, k, c: "k" in c), ("$[?_.k == _['k']]", lambda v, k, c: True), ("$[?_.l[0] == _.k && _.k]", lambda v, k, c: "k" in c and bool(c.get("l")) and isinstance(c["l"], list) and refq.json_eq(c["l"][0], c["k"])),
    ("$[?_.o[?@[1].q]]", lambda v, k, c: "o" in c), ("$[?_.o[?count(@[?@.q == 7]) == 1]]", lambda v, k, c: "o" in c), ("$[?_.o[?_.l]]", lambda v, k, c: "o" in c and "l" in c), ("$[?_.o.p[?@.q == $[0] || @.q == _.o.p[1].q]]", lambda v, k, c: "o" in c),
]


def at(d, name):
    """What `$.name` or `$[index]` gives, as a list."""
    if isinstance(d, dict):
        return [d[str(name)]] if str(name) in d else []
    return [d[name]] if isinstance(d, list) and isinstance(name, int) and name < len(d) else []


def below(v):
    for x in kids(v):
        yield x
        yield from below(x)


def eqs(a, b):
    """Do two queries of at most one value compare equal?"""
    return refq.json_eq(a[0], b[0]) if a and b else not a and not b


# The same, with conditions on (candidate, key, context, document): `$` and `@` inside queries of the filter context.
CTX_POS += [
    ("$[?_.l[?@ == $[1]]]", lambda v, k, c, d: any(eqs([x], at(d, 1)) for x in kids(c.get("l")))),
    ("$[?_.l[?$.k]]", lambda v, k, c, d: bool(kids(c.get("l")) and at(d, "k"))),
    ("$[?_.l[?$.k == 2 || $[2] == 2]]", lambda v, k, c, d: bool(kids(c.get("l")) and (eqs(at(d, "k"), [2]) or eqs(at(d, 2), [2])))),
    ("$[?_.l[?count($.*) > 5]]", lambda v, k, c, d: bool(kids(c.get("l")) and len(d) > 5)),
    ("$[?_[?@ == $['1']]]", lambda v, k, c, d: any(eqs([x], at(d, "1") if isinstance(d, dict) else []) for x in c.values())),
    ("$[?_..[?@.q == $[8]]]", lambda v, k, c, d: any(eqs(at(x, "q"), at(d, 8)) for x in below(c))),
    ("$[?_.l[?$[?@ == _.k]]]", lambda v, k, c, d: bool(kids(c.get("l"))) and "k" in c and any(refq.json_eq(x, c["k"]) for x in kids(d))),
    ("$[?@[?_.l[?@ == $[1]]]]", lambda v, k, c, d: bool(kids(v)) and any(eqs([x], at(d, 1)) for x in kids(c.get("l")))),
    ("$[?$[?_.l[?@ == $[1]]]]", lambda v, k, c, d: any(eqs([x], at(d, 1)) for x in kids(c.get("l")))),
    ("$[?_.l[?@ == ^[0][1]]]", lambda v, k, c, d: any(eqs([x], at(d, 1)) for x in kids(c.get("l")))),
    ("$[?count(_.l[?@ == $[1]]) == @]", lambda v, k, c, d: refq.json_eq(v, sum(eqs([x], at(d, 1)) for x in kids(c.get("l"))))),
    ("$[?_[?@[?@ == $[1]]]]", lambda v, k, c, d: any(eqs([y], at(d, 1)) for x in c.values() for y in kids(x))),
]
CONTEXTS = [None, {}, {"k": 1}, {"k": "a"}, {"k": None}, {"k": False, "l": []}, {"l": [1, "a", None]}, {"k": [1], "l": [[1], 2]}, {"o": {"p": [{"q": 1}, {"q": 7}]}}, {"k": 0, "l": [0, 1], "o": {"p": [{}, {"q": 7}]}}, {"l": {"1": 1, "a": 2}, "k": "1"}, {"l": "a1", "k": "a1"}, {"k": {"a": 1}}]
CDOCS = [[0, 1, 2, 3, "a", None, False, [1], 7, {"a": 1}, "a1", [[1], "a"], [[["a"]], None], [[0, [1]]]], {"a": 1, "k": 2, "1": "a", "b": {"a": {"a": 1}}, "n": None}]


def is_member(v, c):
    if isinstance(c, (str, dict)):
        return isinstance(v, str) and v in c
    return isinstance(c, list) and any(refq.json_eq(v, x) for x in c)


def context_cases(tier):
    for i in range(len(CTX_POS)):
        yield i


def context_case(i, ctx):
    text, cond = CTX_POS[i]
    for doc in CDOCS:
        for c in CONTEXTS:
            for route in (0, 2, 3):
                d = {"query": text, "document": jsongen.short(doc), "filter_context": repr(c)}
                got = values(text, doc, c, route, d)
                ctx.evals += 1
                cc = c or {}
                if cond is None:
                    w = kids(doc) if "k" in cc and any(refq.json_eq(x, cc["k"]) for x in kids(doc)) else []
                else:
                    w = [v for k, v in refq.children(doc) if (cond(v, k, cc) if cond.__code__.co_argcount == 3 else cond(v, k, cc, doc))]
                if not same_list(got, w):
                    raise Violation("the filter context is not what the caller supplied", got=repr(got), expected=repr(w), **d)
                if w and c:
                    ctx.nontrivial(text, repr(c), jsongen.short(doc))


# -- what is refused -----------------------------------------------------------

ALIASED = [*c07.TESTS, *c07.OPERANDS]
DOCS = [[{"a": "b", "b": 1, "c": None}, [1, {"a": 1}], "x", {"b": "a"}], {"a": [{"b": 2}], "b": {"a": 1, "d": True}}]


def refused_cases(tier):
    yield from range(len(ALIASED))


def refused_case(i, ctx):
    """An alias is refused where the standard spelling is, and only there."""
    template = ALIASED[i]
    words = template
    for op, word in (("&&", " and "), ("||", " or "), ("!=", "<>")):
        words = words.replace(op, word)
    words = re.sub(r"!", "not ", words)
    words = words.replace("true", "True").replace("false", "False").replace("null", "None")
    variants = {words, template.replace("!=", "<>"), template.replace("==", "!=")}
    for atom in [*c07.ATOMS, *MORE_ATOMS]:
        for v in sorted(variants):
            std = v
            if v == words:
                std = template
            elif "<>" in v:
                std = template
            else:
                # The comparison templates with == serve as != ones.
                v = v.replace("!=", "<>")
                std = v.replace("<>", "!=")
            if v == std:
                continue
            a, b = v.replace("{x}", atom), std.replace("{x}", atom)
            for doc in DOCS:
                got, want = outcome(a, doc, CONTEXT), outcome(b, doc, CONTEXT)
                ctx.evals += 1
                same = got[0] == want[0] and (got[0] == "error" or repr(got[1:]) == repr(want[1:]))
                if not same:
                    raise Violation("the alias is not treated as the standard spelling is", query=a, standard=b, got=repr(got)[:1000], expected=repr(want)[:1000], document=jsongen.short(doc))
                if got[0] == "error" and doc is DOCS[0]:
                    ctx.nontrivial(a)


MORE_ATOMS = ["@.*", "@..a", "@[0, 1]", "@['a', 'b']", "@[:]", "@[?@.a]", "$.*", "_.*", "_", "#", "^.*", "[1]", "1", "'a'", "@ == 1", "(@.a)", "(1)", "undefined", "foo(@.a)"]

PROPS = [
    Prop("extended", extended_case, quick=150000),
    Prop("aliases", alias_case, quick=70000),
    Enum("membership and inequality", membership_cases, membership_case),
    Enum("undefined", undefined_cases, undefined_case),
    Enum("regular expressions", regex_cases, regex_case),
    Enum("literal aliases", literal_cases, literal_case),
    Enum("word operators", word_cases, word_case),
    Enum("bare names", name_cases, name_case),
    Enum("rootless queries", rootless_cases, rootless_case),
    Enum("keys, fake root and current key", keys_cases, keys_case),
    Enum("filter context", context_cases, context_case),
    Enum("aliases refused", refused_cases, refused_case),
]
