"""C02: RFC 9535 filter selectors against a reference evaluator."""

from __future__ import annotations

from .. import jsongen, qgen, refq, rx
from ..engine import Enum, Prop, Violation
from ..lib import call, jsonpath
from .c01 import compare as compare_nodes

BIG_INT_NAMES = True
RULE = (
    "random (document, filter query) pairs: the filter tree (existence tests, comparisons, !, &&, ||, "
    "functions, nested filters) is guided by the candidate children of a container of the document and "
    "rendered to a random spelling. Non-trivial: the filter keeps some candidate children and drops "
    "others, or the query nests a filter or uses a function; distinct by (query text, document). Random "
    "patterns of the dialect common to I-Regexp and Python's re, on strings near their languages, given as "
    "literals or by the document. Plus an exhaustive comparison table: pairs of JSON values and absent x six operators x operand forms, "
    "and truth tables of logical operators."
)


def filter_query(src, doc, pool):
    g = qgen.Gen(src, doc, pool, filters=True, max_desc=2, fdepth=2, max_segs=3)
    # A container to filter.
    segs, cur = [], doc
    k = src.draw(10)
    if k < 2:
        segs.append(("d", []))
        g.ndesc = 1
        for _ in range(src.int(0, 2)):
            c = g.child(cur)
            if isinstance(c, (dict, list)):
                cur = c
    else:
        for _ in range(src.int(0, 2)):
            if isinstance(cur, dict) and cur:
                name = src.choice(list(cur))
                if not isinstance(cur[name], (dict, list)):
                    break
                segs.append(("c", [("n", name)] if src.bool(2, 3) else [("w",)]))
                cur = cur[name]
            elif isinstance(cur, list) and cur:
                i = src.draw(min(len(cur), 6))
                if not isinstance(cur[i], (dict, list)):
                    break
                segs.append(("c", [("i", i)] if src.bool(2, 3) else [("w",)]))
                cur = cur[i]
    sel = ("f", g.logical(g.child(cur), 2))
    sels = [sel]
    if src.bool(1, 10):
        sels = sels + [g.selector(cur, 1)]
    if segs and segs[-1] == ("d", []):
        segs[-1] = ("d", sels)
    else:
        segs.append(("c", sels))
    if src.bool(1, 8):
        more, _ = g.segments(g.child(cur), 1, 2, lo=1)
        segs += more
    return ("q", "$", segs)


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, scalars=False, shared=True)
    q = filter_query(src, doc, pool)
    text = qgen.Render(src).query(q)
    ref = refq.find(q, doc)
    details = {"query": text, "document": jsongen.short(doc), "tree": repr(q)[:2000]}
    compare_nodes(text, doc, ref, details)
    feats = qgen.features(q)
    for f in feats:
        ctx.label(f)
    total = refq.find(("q", "$", [(k, [("w",)] if any(s[0] == "f" for s in ss) else ss) for k, ss in q[2]]), doc)
    if ref and len(ref) < len(total):
        ctx.label("some kept, some dropped")
        ctx.nontrivial(text, jsongen.short(doc))
        ctx.sample({"query": text, "document": jsongen.short(doc, 400), "kept": len(ref), "of": len(total)})
    else:
        ctx.label("all kept" if ref else "none kept")
        if any(f.endswith("()") for f in feats):
            ctx.nontrivial(text, jsongen.short(doc))


# -- the comparison table ---------------------------------------------------------

VALUES = [
    None, True, False, 0, 1, -1, 2, 0.0, -0.0, 1.0, 1.5, -1.5, 10, 100, 2**53 - 1, "", "a", "b", "A",
    "ab", "0", "1", "true", "null", "\u00e9", "\uffff", "\U0001f600", [], [0], [False], [1], [True],
    [1.0], [None], [[]], [1, 2], [2, 1], [[1]], [[True]], {}, {"a": 1}, {"a": True}, {"a": 1.0},
    {"a": 0}, {"a": None}, {"b": 1}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": [1]}, {"a": [True]},
    {"a": {"b": False}}, {"a": {"b": 0}},
]
ABSENT = object()
U = VALUES + [ABSENT]


def table(tier):
    for i in range(len(U)):
        yield i


def forms(v, who):
    """Ways to write an operand with value v: (text, tree)."""
    q = ("q", "@", [("c", [("n", who)])])
    out = [(f"@.{who}", q)]
    if v is not ABSENT:
        out.append((f"$.{who}", ("q", "$", [("c", [("n", who)])])))
        out.append((f"value(@.{who})", ("fn", "value", [q])))
        if not isinstance(v, (dict, list)):
            out.append((qgen.Render(None).lit(v), ("lit", v)))
    else:
        out.append((f"$.none{who}", ("q", "$", [("c", [("n", "none" + who)])])))
        out.append((f"value(@.{who})", ("fn", "value", [q])))
        out.append((f"value($..{who})", ("fn", "value", [("q", "$", [("d", [("n", "zz")])])])))
        out.append((f"length(@.{who})", ("fn", "length", [q])))
    return out


def table_case(i, ctx):
    a = U[i]
    for b in U:
        cand = {}
        doc = {"c": [cand], "l": [], "r": []}
        doc = {"c": [cand]}
        if a is not ABSENT:
            cand["l"] = a
            doc["l"] = a
        if b is not ABSENT:
            cand["r"] = b
            doc["r"] = b
        for lt, lq in forms(a, "l"):
            for rt, rq in forms(b, "r"):
                if lt.startswith("value($..") or rt.startswith("value($.."):
                    lt2 = lt.replace("$..l", "$..zz")
                    rt2 = rt.replace("$..r", "$..zz")
                else:
                    lt2, rt2 = lt, rt
                for op in qgen.CMP_OPS:
                    e = ("cmp", op, lq, rq)
                    q = ("q", "$", [("c", [("n", "c")]), ("c", [("f", e)])])
                    text = f"$.c[?{lt2} {op} {rt2}]"
                    ref = refq.find(q, doc)
                    compare_nodes(text, doc, ref, {"query": text, "document": jsongen.short(doc)})
                    ctx.evals += 1
                    if ref:
                        ctx.nontrivial(text, jsongen.short(doc))
        # `$` denotes the document and `@` the child in a nested filter too
        for op in ("==", "<"):
            if b is ABSENT or a is ABSENT:
                continue
            d2 = {"l": a, "c": [{"d": [{"r": b}]}]}
            e = ("cmp", op, ("q", "$", [("c", [("n", "l")])]), ("q", "@", [("c", [("n", "r")])]))
            inner = ("q", "@", [("c", [("n", "d")]), ("c", [("f", e)])])
            q = ("q", "$", [("c", [("n", "c")]), ("c", [("f", ("ex", inner))])])
            text = f"$.c[?@.d[?$.l {op} @.r]]"
            compare_nodes(text, d2, refq.find(q, d2), {"query": text, "document": jsongen.short(d2)})
            ctx.evals += 1


# -- existence and functions on every kind of value -----------------------------------

def existence(tier):
    for i in range(len(VALUES)):
        yield i


def existence_case(i, ctx):
    v = VALUES[i]
    docs = [[v], {"k": v}, [{"a": v}], [[v]], {"a": {"a": v}}]
    at, ata, at0, atw = ("q", "@", []), ("q", "@", [("c", [("n", "a")])]), ("q", "@", [("c", [("i", 0)])]), ("q", "@", [("c", [("w",)])])
    atd = ("q", "@", [("d", [("w",)])])
    tests = [("ex", at), ("ex", ata), ("ex", at0), ("ex", atw), ("ex", atd)]
    tests += [("ex", ("q", "$", [("c", [("i", 0)])])), ("ex", ("q", "$", [("c", [("n", "a")])]))]
    tests += [("not", t) for t in tests]
    for q in (at, ata, at0):
        for n in (0, 1, 2):
            tests.append(("cmp", "==", ("fn", "length", [q]), ("lit", n)))
            tests.append(("cmp", "==", ("fn", "count", [q]), ("lit", n)))
        tests.append(("cmp", "==", ("fn", "value", [q]), q))
        tests.append(("cmp", "==", ("fn", "value", [q]), ("lit", v if not isinstance(v, (dict, list)) else None)))
        tests.append(("cmp", "==", ("fn", "length", [q]), ("q", "@", [("c", [("n", "nope")])])))
        tests.append(("cmp", "==", q, q))
        for f in ("match", "search"):
            tests.append(("fn", f, [q, ("lit", "a")]))
            tests.append(("fn", f, [q, ("lit", "a.*")]))
            tests.append(("fn", f, [("lit", "a"), q]))
    for q in (atw, atd):
        tests.append(("cmp", "==", ("fn", "count", [q]), ("lit", 1)))
        tests.append(("cmp", "==", ("fn", "value", [q]), ("q", "@", [("c", [("n", "nope")])])))
    r = qgen.Render(None)
    for doc in docs:
        for e in tests:
            for e2 in (e, ("and", e, ("ex", at)), ("or", ("not", ("ex", at)), e)):
                q = ("q", "$", [("c", [("f", e2)])])
                text = r.query(q)
                ref = refq.find(q, doc)
                compare_nodes(text, doc, ref, {"query": text, "document": jsongen.short(doc)})
                ctx.evals += 1
                if ref:
                    ctx.nontrivial(text, jsongen.short(doc))


# -- truth tables: every shape of a logical expression over three tests -------------------

def shapes(depth):
    yield ("v", 0)
    if depth == 0:
        return
    for s in shapes(depth - 1):
        yield ("not", s)
    for a in shapes(depth - 1):
        for b in shapes(depth - 1):
            yield ("and", a, b)
            yield ("or", a, b)


def logic(tier):
    yield from shapes(2)


NAMES = ["p", "q", "r", "s"]


def _number(shape, counter):
    if shape[0] == "v":
        i = counter[0]
        counter[0] += 1
        return ("ex", ("q", "@", [("c", [("n", NAMES[i % 4])])]))
    return (shape[0], *[_number(s, counter) for s in shape[1:]])


def minimal(e, prec):
    """Text with as few parentheses as the RFC's precedence allows."""
    k = e[0]
    if k == "ex":
        return qgen.Render(None).query(e[1])
    if k == "not":
        return "!" + (minimal(e[1], 3) if e[1][0] == "ex" else "(" + minimal(e[1], 0) + ")")
    p = 1 if k == "or" else 2
    s = minimal(e[1], p) + (" || " if k == "or" else " && ") + minimal(e[2], p)
    return "(" + s + ")" if p < prec else s


def logic_case(shape, ctx):
    e = _number(shape, [0])
    doc = [{NAMES[i]: i for i in range(4) if m >> i & 1} for m in range(16)]
    q = ("q", "$", [("c", [("f", e)])])
    for text in ("$[?" + minimal(e, 0) + "]", qgen.Render(None).query(q)):
        ref = refq.find(q, doc)
        compare_nodes(text, doc, ref, {"query": text, "document": jsongen.short(doc)})
        ctx.evals += 1
        if ref:
            ctx.nontrivial(text)


# -- regular expressions: random patterns of the common dialect on strings near their languages -----------

LETTERS = ["a", "b", "c", "A", "B", "0", "1", "9", " ", "\n", "\t", "_", "-", ".", "é", "É", "ß", "ſ", "٣", "\u2028", "\x85", "\u00a0", "☺", "😀", "𝒜", "/", "'", '"', "\\", "#", "(", "[", "^", "$"]


def re_char(src):
    k = src.draw(6)
    return src.choice(LETTERS[:4]) if k < 4 else src.choice(LETTERS)


def re_tree(src, depth):
    """A pattern tree as rx.parse gives it."""
    k = src.draw(12) if depth > 0 else src.draw(6)
    if k < 4:
        return ("chr", re_char(src))
    if k < 5:
        return ("dot",)
    if k < 6:
        items = []
        for _ in range(src.int(1, 3)):
            lo, hi = sorted([re_char(src), re_char(src)]) if src.bool(1, 3) else [re_char(src)] * 2
            items.append((lo, hi))
        return ("set", src.bool(1, 3), items)
    if k < 8:
        return ("seq", [re_tree(src, depth - 1) for _ in range(src.int(0, 4))])
    if k < 10:
        return ("alt", [re_tree(src, depth - 1) for _ in range(src.int(2, 4))])
    lo = src.int(0, 2)
    return ("rep", re_tree(src, depth - 1), lo, src.choice([None, lo, lo + 1, lo + 2]))


def re_ways(t):
    """A bound on the ways a backtracking matcher can go about a subject of 16 characters."""
    k = t[0]
    if k in ("chr", "dot", "set"):
        return 1
    if k == "alt":
        return sum(re_ways(x) for x in t[1])
    if k == "seq":
        n = 1
        for x in t[1]:
            n *= re_ways(x)
        return n
    inner, top = re_ways(t[1]), 16 if t[3] is None else t[3]
    return sum(inner**i for i in range(t[2], top + 1))


def re_escape(c, in_class):
    if c in "\n\r\t":
        return {"\n": "\\n", "\r": "\\r", "\t": "\\t"}[c]
    return "\\" + c if c in (rx.ESC if in_class else rx.SPECIAL) else c


def re_text(t):
    k = t[0]
    if k == "chr":
        return re_escape(t[1], False)
    if k == "dot":
        return "."
    if k == "set":
        return "[" + ("^" if t[1] else "") + "".join(
            re_escape(lo, True) + ("-" + re_escape(hi, True) if hi != lo else "") for lo, hi in t[2]
        ) + "]"
    if k == "seq":
        return "".join("(" + re_text(x) + ")" if x[0] in ("alt", "seq") else re_text(x) for x in t[1])
    if k == "alt":
        return "|".join("(" + re_text(x) + ")" if x[0] == "alt" else re_text(x) for x in t[1])
    inner = re_text(t[1])
    if t[1][0] not in ("chr", "dot", "set"):
        inner = "(" + inner + ")"
    lo, hi = t[2], t[3]
    short = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((lo, hi))
    return inner + (short or ("{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi is None else hi)))


def re_sample(src, t, budget):
    """A string of the pattern's language, or nearly."""
    if len(budget) > 14:
        return
    k = t[0]
    if k == "chr":
        budget.append(t[1])
    elif k == "dot":
        budget.append(re_char(src))
    elif k == "set":
        lo, hi = src.choice(t[2])
        budget.append(re_char(src) if t[1] else chr(src.int(ord(lo), min(ord(hi), ord(lo) + 60))))
    elif k == "seq":
        for x in t[1]:
            re_sample(src, x, budget)
    elif k == "alt":
        re_sample(src, src.choice(t[1]), budget)
    else:
        for _ in range(t[2] + src.draw(3)):
            re_sample(src, t[1], budget)


def regex_case(src, ctx):
    t = re_tree(src, 3)
    if re_ways(t) > 20000:  # no exponential backtracking: that is `re`'s business
        t = t[1][0] if t[0] in ("seq", "alt") and t[1] and re_ways(t[1][0]) <= 20000 else ("chr", "a")
    pattern = re_text(t)
    subjects = []
    for _ in range(src.int(2, 6)):
        out = []
        re_sample(src, t, out)
        for _ in range(src.draw(3)):
            i = src.draw(len(out) + 1)
            k = src.draw(4)
            if k == 0:
                out.insert(i, re_char(src))
            elif k == 1 and i < len(out):
                out[i] = re_char(src)
            elif k == 2 and i < len(out):
                del out[i]
            else:
                out.append(re_char(src))
        s = "".join(out[:16])
        if any("\ud800" <= c <= "\udfff" for c in s):
            continue
        subjects.append(s)
    form = src.draw(5)
    at = ("q", "@", [])
    lit = ("lit", pattern)
    name = src.choice(["match", "search"])
    rows = subjects + src.choice([[], [1, None, [], {}, True]])
    if form < 3:
        doc = {"rows": rows, "p": pattern}
        q = ("fn", name, [at, lit if form < 2 else ("q", "$", [("c", [("n", "p")])])])
    else:
        doc = {"rows": [{"s": s, "p": pattern} for s in rows]}
        q = ("fn", name, [("q", "@", [("c", [("n", "s")])]), ("q", "@", [("c", [("n", "p")])]) if form == 3 else lit])
    if src.bool(1, 4):
        q = ("not", q)
    tree = ("q", "$", [("c", [("n", "rows")]), ("c", [("f", q)])])
    text = qgen.Render(src).query(tree)
    ref = refq.find(tree, doc)
    details = {"query": text, "pattern": pattern, "document": jsongen.short(doc)}
    compare_nodes(text, doc, ref, details)
    ctx.label("all" if len(ref) == len(rows) else "none" if not ref else "some")
    if ref and len(ref) < len(rows):
        ctx.nontrivial(text, jsongen.short(doc))
        ctx.sample({"query": text, "document": jsongen.short(doc, 300), "kept": len(ref), "of": len(rows)})


PROPS = [
    Prop("filters", case, quick=200000, thorough=4000000),
    Prop("regular expressions", regex_case, quick=40000, thorough=800000),
    Enum("comparison table", table, table_case),
    Enum("existence and functions", existence, existence_case),
    Enum("truth tables", logic, logic_case),
]
