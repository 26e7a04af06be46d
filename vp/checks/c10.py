"""C10: a compiled query's string form recompiles to an equivalent query."""

from __future__ import annotations

import itertools
import json
import math
import struct
import warnings

from .. import jsongen, qgen
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPathError, _Metered, describe, metered_env
from . import c06, c13

BIG_INT_NAMES = True
RULE = (
    "queries the default environment accepts: standard queries in every spelling, extension syntax, compound "
    "queries, a loose grammar with operands of every kind in every position, token soup and mutations of all of "
    "these. The string form must compile, be a fixed point, and give the same matches (locations, values by "
    "identity, or the same class of error) as the query itself on documents made for the query and on documents "
    "that hold every JSON type at every position. Exhaustive: every logical expression of up to four operands "
    "with every placement of negation, over combinations of member values; number literals of every sign, many "
    "mantissas and every exponent in several spellings; regular expressions with every sequence of flags. Non-trivial: a query with a match on "
    "some document, whose string form differs from its text; distinct by string form."
)

ASSUMPTIONS = [
    "text nested too deeply, or too costly to evaluate, is not judged (see C06)",
]

warnings.simplefilter("ignore", FutureWarning)
warnings.simplefilter("ignore", DeprecationWarning)

ENV = metered_env()
LIMIT = 20000

VALS = [None, True, False, 0, 1, "a", "ab", [1, "a"], {"a": 1, "b": [2]}, {"a": {"a": "a"}}]
TT = [
    {k: v for k, v in zip("abc", vs) if v != "absent"}
    for vs in itertools.product(["absent", 1, "a"], ["absent", 1, False], ["absent", 1, ["a"]])
]
FIXED = [TT, {"a": TT, "b": VALS, "c": {"a": VALS}}, [[x, y] for x in VALS for y in (1, "a", {"a": 1})], *c06.DOCS[9:]]


def run(path, doc, context):
    data = json.dumps(doc) if isinstance(doc, str) else doc
    arg = {} if context is None else {"filter_context": context}
    _Metered.steps = 0
    _Metered.limit = LIMIT
    try:
        return ("ok", [(m.path, m.parts, m.obj) for m in path.finditer(data, **arg)])
    except Discard:
        raise
    except Exception as err:
        return ("error", type(err).__name__)


def agree(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "error":
        return a[1] == b[1]
    if len(a[1]) != len(b[1]):
        return False
    for (p, parts, x), (q, qarts, y) in zip(a[1], b[1]):
        if p != q or parts != qarts or not (x is y or jsongen.same_value(x, y)):
            return False
    return True


def show(out):
    return out[1] if out[0] == "error" else repr([(p, x) for p, _, x in out[1]])[:1500]


def judge(text, docs, contexts, ctx, env=ENV):
    """Returns False if the text is not a query."""
    if c06.too_deep(text):
        raise Discard
    try:
        p = env.compile(text)
    except Exception:
        return False
    d = {"query": text[:3000], "query_repr": ascii(text)[:3000]}
    try:
        s1 = str(p)
    except Exception as err:
        raise Violation(f"str(query) raised {describe(err)}", **d) from err
    d["string_form"] = ascii(s1)[:3000]
    try:
        p2 = env.compile(s1)
    except Exception as err:
        raise Violation(f"the string form does not compile: {describe(err)}", **d) from err
    s2 = str(p2)
    if s1 != s2:
        raise Violation("the string form is not a fixed point", string_form_of_string_form=ascii(s2)[:3000], **d)
    if c06.costly(text):
        ctx.label("not evaluated")
        return True
    some = False
    for doc in docs:
        context = contexts[0] if len(contexts) == 1 else contexts[len(text) % len(contexts)]
        try:
            want = run(p, doc, context)
            got = run(p2, doc, context)
        except Discard:
            ctx.label("too expensive")
            continue
        if not agree(want, got):
            raise Violation(
                "the string form is a different query", document=jsongen.short(doc), filter_context=repr(context)[:1000],
                matches=show(want), string_form_matches=show(got), **d,
            )
        some = some or bool(want[1])
    ctx.label("matched" if some else "no matches")
    if some and s1 != text:
        ctx.nontrivial(s1)
        ctx.sample({"query": ascii(text)[:300], "string_form": ascii(s1)[:300]})
    return True


def generated(src, ctx, ext):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool)
    context = {src.choice(pool): jsongen.gen_value(src, pool, 2, [6]) for _ in range(src.int(0, 2))} if ext and src.bool() else None
    r = qgen.Render(src, ext=ext)
    n = 1 if not ext or not src.bool(1, 6) else src.int(2, 3)
    qs = []
    for _ in range(n):
        g = qgen.Gen(
            src, doc, pool, filters=src.bool(4, 5), ext=ext, extfuncs=ext, context=context, max_segs=3, fdepth=2,
            bigint=True,
        )
        qs.append(g.query("^" if ext and src.bool(1, 8) else "$"))
    text = r.query(qs[0], top=True)
    for q in qs[1:]:
        text += r.pick([" ", ""]) + src.choice("|&") + r.pick([" ", ""]) + r.query(q, top=True)
    for q in qs:
        for f in qgen.features(q):
            ctx.label(f)
    other = jsongen.gen_doc(src, pool)
    if not judge(text, [doc, other], [context], ctx):
        ctx.label("refused")


def standard_case(src, ctx):
    generated(src, ctx, False)


def extended_case(src, ctx):
    generated(src, ctx, True)


def pick_docs(src):
    return [src.choice(FIXED) for _ in range(2)] + [TT]


def grammar_case(src, ctx):
    text = c06.Grammar(src).query()
    if src.bool(1, 6):
        text = c06.mutate(src, text, "$[?@.a == 'b' && !(@.c || @.a)]")
    ctx.label("accepted" if judge(text, pick_docs(src), c06.CONTEXTS[3:], ctx) else "refused")


def soup_case(src, ctx):
    text = c06.soup(src)
    ctx.label("accepted" if judge(text, pick_docs(src), c06.CONTEXTS[3:], ctx) else "refused")


def mutation_case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool)
    ext = src.bool(2, 3)
    r = qgen.Render(src, ext=ext)
    g = qgen.Gen(src, doc, pool, filters=True, ext=ext, extfuncs=ext, max_segs=3, fdepth=2)
    text = r.query(g.query("$"), top=True)
    text = c06.mutate(src, text, text)
    ctx.label("accepted" if judge(text, [doc, src.choice(FIXED)], [None], ctx) else "refused")


# -- every spelling of scalars -----------------------------------------------------------------

def any_number(src):
    """A random double, integer or decimal spelling."""
    k = src.draw(6)
    if k == 0:
        v = struct.unpack("<d", struct.pack("<Q", src.draw(1 << 32) << 32 | src.draw(1 << 32)))[0]
        return "1.25" if math.isnan(v) or math.isinf(v) else repr(v)
    if k == 1:
        return repr(src.int(-(10**9), 10**9) / src.choice([3, 7, 10, 1000, 1e5, 1e-5, 999983]))
    if k == 2:
        return str(src.choice([1, -1]) * (src.draw(10 ** src.int(1, 9)) * 10 ** src.draw(12) + src.draw(1000)))
    digits = "".join(str(src.draw(10)) for _ in range(src.int(1, 20)))
    whole = src.choice(["", "-"]) + (str(src.int(1, 9)) + digits if k == 3 else str(src.draw(10)))
    if k == 5:
        return whole + src.choice("eE") + src.choice(["", "+", "-"]) + str(src.draw(25))
    frac = "." + digits[::-1] if src.bool(3, 4) else ""
    exp = src.choice("eE") + src.choice(["", "+", "-"]) + src.choice(["", "0"]) + str(src.draw(30)) if src.bool() else ""
    return whole + frac + exp


def scalar_case(src, ctx):
    """Strings, numbers and regular expressions of any content."""
    k = src.draw(4)
    if k < 2:
        v = jsongen.gen_string(src, []) if src.bool() else "".join(
            src.choice(["'", '"', "\\", "/", "\n", "a", "é", "😀", "\x00", "\x7f", "\u2028", " ", "]", "[", "$", "u0041", "b", "\t", "\x1f", "~", "1"])
            for _ in range(src.count(0, 6, 3, 4))
        )
        t = qgen.Render(src).string(v)
        shapes = ["$[{t}]", "$..[{t}]", "$[?@ == {t}]", "$[?@[{t}]]", "$[?@ in [{t}]]", "$[?{t} in @]", "$[?match(@, {t})]", "$[?length({t}) == 1]", "$[?@.a < {t}]", "$[{t}, {t}][{t}]"]
        docs = [{v: {v: 1}, "a": v}, [v, v + "a", {v: v}, [v], "a" + v], {"a": [v, {"a": v}]}]
    elif k == 2:
        t = src.choice(c06.NUMBERS[:40]) if src.bool() else qgen.Render(src).number(src.choice([0, 1, -1, 1.5, 1e16, 1e22, 1e-7, 123456789.125, 2**53, -1e300, 5e-324, 1e15, 0.1, 100, 1000000]))
        if src.bool():
            t = any_number(src)
        try:
            v = json.loads(t)
        except ValueError:
            v = 1
        if isinstance(v, float) and math.isinf(v):
            v = 1.5
        near = [v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf)] if isinstance(v, float) else [v, v + 1, v - 1]
        shapes = ["$[?@ == {t}]", "$[?@ < {t}]", "$[?@ in [{t}, {t}]]", "$[?{t} <= @.a]", "$[?length({t}) == 1 || @ != {t}]", "$[{t}]", "$[{t}:{t}]", "$[?@[{t}]]", "$[?{t} in @]"]
        docs = [[*near, -v, 0, 1, 1.5, [v], {"a": v}, {"a": near[1]}, {"a": near[2]}, 10**22, 1e16, 2**53, 2**53 + 1], [[1, 2, 3, v]] * 3]
    else:
        t = src.choice(c06.REGEXES) if src.bool() else "/" + src.choice(qgen.REGEXES[:14]) + src.choice(["", "b", ".", "\\/", "'", '"']) + "/" + src.choice([*qgen.RE_FLAGS, "mm", "sa"])
        shapes = ["$[?@ =~ {t}]", "$[?@.a =~ {t} && @.b]", "$[?!(@ =~ {t})]", "$..[?@ =~ {t}]", "$[?# =~ {t}]"]
        docs = [["a", "A", "ab", "a\n", "\n", "a.", "a/", "aa", "b", "é", "É", "", "a'", 'a"'], {"a": {"a": "a", "b": 1}, "A": "ab"}]
    text = src.choice(shapes).replace("{t}", t)
    ctx.label("accepted" if judge(text, docs, [None], ctx) else "refused")


# -- exhaustive: logical expressions -----------------------------------------------------------

ATOMS = ["@.a", "@.b == 1", "@.c != 1", "match(@.a, 'a')", "@.a in ['a']", "count(@.*) > 1"]


def skeletons(n):
    """Binary trees with n leaves over && and ||."""
    if n == 1:
        yield "x"
        return
    for i in range(1, n):
        for left in skeletons(i):
            for right in skeletons(n - i):
                for op in ("&&", "||"):
                    yield (op, left, right)


def nodes(t):
    return 1 if t == "x" else 1 + nodes(t[1]) + nodes(t[2])


def spell(t, atoms, nots, force):
    """Text of a tree: nots says, in pre-order, which nodes are negated."""
    neg = next(nots)
    if t == "x":
        a = next(atoms)
        simple = "=" not in a and ">" not in a and " in " not in a
        if neg == 2:
            return "!!" + a if simple else f"!(!({a}))"
        if neg:
            return "!" + a if simple else f"!({a})"
        return f"({a})" if force else a
    body = spell(t[1], atoms, nots, force) + f" {t[0]} " + spell(t[2], atoms, nots, force)
    return "!" * neg + f"({body})"


OPERANDS = ["@.a", "@.b == 1", "!@.a", "(@.a || @.b)", "1", "'a' in @", "true"]


def logic_cases(tier):
    for n in (1, 2, 3, 4):
        for t in skeletons(n):
            k = nodes(t)
            for head in itertools.product((0, 1), repeat=min(3, k)):
                yield ("tree", n, t, head)
    for o1, o2 in itertools.product(["==", "<", "in", "contains", "!=", "&&", "||", "=~"], repeat=2):
        for a in OPERANDS:
            yield ("mixed", a, o1, o2)


def logic_case(c, ctx):
    if c[0] == "tree":
        _, n, t, head = c
        k = nodes(t)
        for tail in itertools.product((0, 1, 2) if n <= 2 else (0, 1), repeat=k - len(head)):
            negs = (*head, *tail)
            for rot in range(len(ATOMS) if n <= 3 else 2):
                atoms = [ATOMS[(rot + i * (1 + rot % 2)) % len(ATOMS)] for i in range(n)]
                text = spell(t, iter(atoms), iter(negs), False)
                if text.startswith("(") and not any(negs):
                    text = text[1:-1]
                for q in (f"$[?{text}]", f"$[?@[?{text}] || @.zz]")[: 2 if n <= 2 else 1]:
                    if not judge(q, [TT], [None], ctx):
                        raise Violation("a logical expression was refused", query=q)
                    ctx.evals += 1
        return
    # comparisons of expressions, which the default environment accepts
    _, a, o1, o2 = c
    for b, d in itertools.product(OPERANDS, repeat=2):
        for q in (f"$[?{a} {o1} {b} {o2} {d}]", f"$[?({a} {o1} {b}) {o2} {d}]", f"$[?!({a} {o1} {b}) {o2} {d}]", f"$[?!{a} {o1} !{b} {o2} !({d})]"):
            judge(q, [TT], [None], ctx)
            ctx.evals += 1


# -- exhaustive: number literals ---------------------------------------------------------------

EXPS = [*range(-30, 31), *range(300, 315), *range(-330, -300, 3), 40, 53, 64, 100, 128, 200, 256, -40, -100, -200]


def number_cases(tier):
    exps = EXPS if tier == "quick" else range(-345, 345)
    for e in exps:
        for sign in ("", "-"):
            yield sign, e


def number_case(c, ctx):
    sign, e = c
    for m in ("0", "1", "2", "5", "7", "9", "10", "12", "100", "0.0", "1.0", "1.5", "9.5", "0.1", "1.25", "123.456", "9.999999999999999", "1."):
        for exp in (f"e{e}", f"E{e}") + ((f"e+{e}", f"e0{e}") if e >= 0 else (f"E-0{-e}",)):
            t = sign + m + exp
            try:
                v = json.loads(t)
            except ValueError:
                v = 1
            v = 1e308 if isinstance(v, float) and math.isinf(v) else v
            docs = [[v, -v, v * 10 if abs(v) < 1e300 else 0, v / 10, 0, 1], [{"a": v}, {"a": -v}, {"a": 0}]]
            for shape in ("$[?@ == {t}]", "$[?@.a in [{t}]]"):
                judge(shape.replace("{t}", t), docs, [None], ctx)
                ctx.evals += 1


# -- exhaustive: regular expression flags -------------------------------------------------------

FLAGS = ["".join(f) for n in range(5) for f in itertools.permutations("aims", n)] + ["ii", "sms", "aimsaims"]


def regex_cases(tier):
    yield from c13.REGEXES
    yield from ["\\w|a.b|a$.^b|Z", "(\\w)(.)a$|b", "k.?$\\s*^a", "[^\\W]|[\\d]|[a-c].[x-z]"]


def regex_case(r, ctx):
    docs = [c13.SUBJECTS, [{"a": v, "b": [v]} for v in c13.SUBJECTS + ["A\nB", "é\nÉ", "K\na"]]]
    for f in FLAGS:
        for q in (f"$[?@ =~ /{r}/{f}]", f"$[?@.a =~ /{r}/{f} && !(@.b[0] =~ /a./{f})]"):
            judge(q, docs, [None], ctx)
            ctx.evals += 1


PROPS = [
    Prop("standard", standard_case, quick=30000),
    Prop("extended", extended_case, quick=60000),
    Prop("grammar", grammar_case, quick=100000),
    Prop("soup", soup_case, quick=80000),
    Prop("mutation", mutation_case, quick=30000),
    Prop("scalars", scalar_case, quick=80000),
    Enum("logical expressions", logic_cases, logic_case),
    Enum("number literals", number_cases, number_case),
    Enum("regular expression flags", regex_cases, regex_case),
]
