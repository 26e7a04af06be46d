"""C01: segments and selectors against a reference evaluator."""

from __future__ import annotations

from .. import jsongen, qgen, refq
from ..engine import Enum, Prop, Violation
from ..lib import call, jsonpath

BIG_INT_NAMES = True
RULE = (
    "random (document, query) pairs: the document is drawn first, over a per-case pool of member "
    "names; the query tree is guided by walking the document and rendered to a random spelling. "
    "Non-trivial: the reference nodelist is non-empty, or a selector met a value of the wrong kind; "
    "distinct by (query text, document). Plus every slice over a grid of bounds and array lengths, and deep documents, long arrays and long queries."
)


def compare(text, doc, ref, details):
    got = call(jsonpath.findall, text, jsongen.as_arg(doc), what=f"findall({text!r})", details=details)
    if len(got) != len(ref) or not all(jsongen.same(g, r[1]) for g, r in zip(got, ref)):
        raise Violation(
            "findall does not return the RFC 9535 nodelist",
            expected=jsongen.short([r[1] for r in ref]), got=repr(got)[:4000], **details,
        )
    return got


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, shared=True)
    g = qgen.Gen(src, doc, pool, max_desc=3, max_segs=5)
    q = g.query()
    text = qgen.Render(src).query(q)
    ref = refq.find(q, doc)
    details = {"query": text, "document": jsongen.short(doc), "tree": repr(q)[:2000]}
    compare(text, doc, ref, details)
    k = src.draw(4)
    if k == 0:
        it = call(lambda: [m.obj for m in jsonpath.finditer(text, jsongen.as_arg(doc))], details=details, what="finditer")
        ok = len(it) == len(ref) and all(jsongen.same(a, r[1]) for a, r in zip(it, ref))
    elif k == 1:
        it = call(lambda: jsonpath.compile(text).findall(jsongen.as_arg(doc)), details=details, what="compile().findall")
        ok = len(it) == len(ref) and all(jsongen.same(a, r[1]) for a, r in zip(it, ref))
    else:
        ok = True
    if not ok:
        raise Violation("entry point does not return the RFC 9535 nodelist", got=repr(it)[:4000], **details)
    feats = qgen.features(q)
    for f in feats:
        ctx.label(f)
    if ref:
        ctx.label("nonempty")
        if len(ref) > 1:
            ctx.label("several nodes")
        ctx.nontrivial(text, jsongen.short(doc))
        ctx.sample({"query": text, "document": jsongen.short(doc, 400), "nodes": len(ref)})
    elif q[2]:
        ctx.label("empty")
        # wrong-kind: fed something, selected nothing
        if len(q[2]) == 1 or refq.find(("q", "$", q[2][:-1]), doc):
            ctx.label("last segment selects nothing")
            ctx.nontrivial(text, jsongen.short(doc))


B = list(range(-6, 7))


def slices(tier):
    top = 6 if tier == "quick" else 9
    for n in range(0, top):
        for a in [None] + B + [2**53 - 1, -(2**53) + 1]:
            for b in [None] + B + [2**53 - 1, -(2**53) + 1]:
                yield (n, a, b)


def slice_case(c, ctx):
    n, a, b = c
    doc = list(range(100, 100 + n))
    for step in (None, 0, 1, -1, 2, -2, 3, -3, 7, -7, 2**53 - 1, -(2**53) + 1):
        text = "$[" + ("" if a is None else str(a)) + ":" + ("" if b is None else str(b))
        if step is not None:
            text += ":" + str(step)
        text += "]"
        q = ("q", "$", [("c", [("s", a, b, step)])])
        ref = refq.find(q, doc)
        compare(text, doc, ref, {"query": text, "document": jsongen.short(doc)})
        ctx.evals += 1
        if ref:
            ctx.nontrivial(text, n)


def kinds(tier):
    values = [
        None, True, False, 0, 1, -1, 1.5, "", "a", "abc", [], [1], [[1], "x", {"a": 2}], {}, {"a": 1},
        {"0": 5, "1": [1, 2], "-1": "n"}, {"": 0}, [None], [0, [1, [2, [3]]]], {"a": {"a": {"a": 1}}},
    ]
    for i in range(len(values)):
        yield (i, values)


SELS = [
    ("n", "a"), ("n", ""), ("n", "0"), ("i", 0), ("i", -1), ("i", 1), ("i", 2), ("s", None, None, None),
    ("s", 0, 1, None), ("s", None, None, -1), ("w",),
]


def kind_case(c, ctx):
    """Every selector, as child and descendant, alone and paired, on every kind of value."""
    i, values = c
    v = values[i]
    r = qgen.Render(None)
    for wrap in (v, [v], {"k": v}):
        pre = [] if wrap is v else [("c", [("w",)])]
        for kind in "cd":
            for s in SELS:
                for t in [None] + SELS:
                    q = ("q", "$", pre + [(kind, [s] if t is None else [s, t])])
                    text = r.query(q)
                    ref = refq.find(q, wrap)
                    compare(text, wrap, ref, {"query": text, "document": jsongen.short(wrap)})
                    ctx.evals += 1
                    if ref:
                        ctx.nontrivial(text, repr(wrap))


DEPTHS = (10, 17, 33, 50, 65, 80, 95)
LENGTHS = (9, 10, 11, 99, 101, 257, 1025, 3001)


def chain_doc(kind, n):
    v = 0
    for i in range(n):
        k = "lom"[i % 2] if kind == "m" else kind
        v = [v, i] if k == "l" else {"b": i, "a": v}
    return v


def big_cases(tier):
    for kind in ("l", "o", "m"):
        for n in DEPTHS:
            yield ("deep", kind, n)
    for kind in ("l", "o"):
        for n in LENGTHS:
            yield ("long", kind, n)


def big_case(c, ctx):
    """Deep documents, long arrays and queries of many segments or selectors."""
    what, kind, n = c
    w, both = ("w",), [("n", "a"), ("i", 0)]
    if what == "deep":
        doc = chain_doc(kind, n)
        down = [("c", both)] * n
        qs = [[("d", [w])], [("d", [("n", "b"), ("i", -1)])], down, down[1:] + [("c", [w])], down[: n // 2] + [("d", [w])], [("c", [w])] * n]
        qs += [[("d", both), ("c", [("s", None, None, -1)])], down[: n // 2] + [("d", both)], [("d", [("i", 1), ("n", "b")])] + [("c", [w])], down + [("c", [w])]]
        if n < 40:
            qs.append([("d", both), ("d", [("i", 1), ("n", "b")])])
    else:
        doc = list(range(n)) if kind == "l" else {str(i): i for i in range(n)}
        qs = [[("c", [w])], [("d", [w])], [("c", [("i", -i)]) for i in (1,)], [("c", [w, ("i", n - 1), ("i", -n)])]]
        qs += [[("c", [("i", i) for i in (n - 1, n, -n, -n - 1, n // 2, 9, 10, 0)])], [("c", [("n", str(n - 1)), ("n", str(n))])]]
        for a, b, st in ((None, None, -1), (n - 3, None, None), (-3, None, None), (None, -n + 3, None), (n - 1, None, -7), (None, None, n - 1), (5, n + 5, 100), (-n - 1, n + 1, n // 2), (n, -n - 1, -n + 1)):
            qs.append([("c", [("s", a, b, st or 1)])])
        # as many selectors as elements, last first
        qs.append([("c", [("i", i) if kind == "l" else ("n", str(i)) for i in range(min(n, 1500))][::-1])])
    for segs in qs:
        q = ("q", "$", segs)
        text = qgen.Render(None).query(q)
        ref = refq.find(q, doc)
        compare(text, doc, ref, {"query": text[:2000], "document": f"{what} {kind} {n}"})
        ctx.evals += 1
        if ref:
            ctx.nontrivial(text, c)


PROPS = [
    Enum("deep and long", big_cases, big_case),
    Prop("queries", case, quick=300000, thorough=1500000),
    Enum("slices", slices, slice_case),
    Enum("kinds", kinds, kind_case),
]
