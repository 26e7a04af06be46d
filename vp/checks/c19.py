"""C19: projection returns exactly the selected values, nothing more, in place."""

from __future__ import annotations

import itertools
import re
from collections.abc import Mapping, Sequence

from .. import jsongen, qgen, refptr, refq
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPathEnvironment, call, jsonpath, meter, metered_env

RULE = (
    "(document, match query, 1-5 relative queries, style): match queries that select containers, scalars, one, many or "
    "nested nodes; relative queries made from locations under a match (names, indices, slices, wildcards, lists of "
    "names and indices, negative indices, descendants, in any order), generated ones (standard with filters, "
    "extended, compound) and ones that select nothing, as text, compiled, or compound; through jsonpath.query, "
    "env.query, path.query and after iterator operations; documents with falsy values, empty containers, member names "
    "that look like integers, deep and wide, of plain and of other Mapping and Sequence types. The oracle evaluates the "
    "relative queries on their own, takes the set of selected locations, drops the ones below another, and builds the "
    "value level by level. Exhaustive: every document of a small family x every list of up to three of its locations, "
    "with and without wildcards, x styles x matches at the root, in an array and in an object. "
    "Non-trivial: something is projected; distinct by (document, queries, style)."
)

ASSUMPTIONS = [
    "where a value and one of its descendants are selected, the value is in the projection whole",
    "relative queries that select the match itself, and locations of member names (the keys selector), are not judged",
    "the order of members in a projected object is not judged",
]

P = jsonpath.Projection
STYLES = {"flat": P.FLAT, "relative": P.RELATIVE, "root": P.ROOT}
METERED = metered_env()


class Map(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return f"Map({self.d!r})"


class Seq(Sequence):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return f"Seq({self.d!r})"


def dress(src, v):
    """The same document, of other types."""
    if isinstance(v, dict):
        return src.choice([dict, Map])({k: dress(src, x) for k, x in v.items()})
    if isinstance(v, list):
        return src.choice([list, tuple, Seq])([dress(src, x) for x in v])
    return v


def plain(v):
    if isinstance(v, Mapping):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, Sequence) and not isinstance(v, str):
        return [plain(x) for x in v]
    return v


def container(v):
    return isinstance(v, (Mapping, Sequence)) and not isinstance(v, str)


# -- the oracle -------------------------------------------------------------------------------

def build(nodes):
    """The value that has these (location, value) nodes, none of which is below another, at its leaves."""
    if len(nodes) == 1 and nodes[0][0] == ():
        return plain(nodes[0][1])
    groups = {}
    for loc, v in nodes:
        groups.setdefault(loc[0], []).append((loc[1:], v))
    if all(isinstance(k, int) for k in groups):
        return [build(groups[k]) for k in sorted(groups)]
    if any(isinstance(k, int) for k in groups):
        raise Discard
    return {k: build(g) for k, g in groups.items()}


def expected(loc, value, selections, style):
    """What this match projects to, as (projection,) or ()."""
    if not container(value) or not selections:
        return ()
    if style == "flat":
        return ([plain(v) for _, v in selections],)
    prefix = loc if style == "root" else ()
    nodes = {prefix + at: v for at, v in selections}
    kept = [(at, v) for at, v in nodes.items() if not any(at[:i] in nodes for i in range(len(at)))]
    return (build(kept),)


def walkable(loc, value, doc):
    """Is this the location of an ordinary node?"""
    for p in loc:
        if isinstance(doc, Mapping) and isinstance(p, str) and p in doc:
            doc = doc[p]
        elif isinstance(doc, Sequence) and not isinstance(doc, str) and type(p) is int and 0 <= p < len(doc):
            doc = doc[p]
        else:
            return False
    return doc is value


def evaluate(path, doc, arg=None):
    try:
        ms = meter(path, doc, arg or {})
    except jsonpath.JSONPathError:
        raise Discard from None
    out = [(tuple(m.parts), m.obj) for m in ms]
    if not all(walkable(loc, v, doc) for loc, v in out):
        raise Discard
    return out


def judge(doc, matches, rels, style, run, details, ctx):
    """Compare run() with what these matches and relative queries project to."""
    want = []
    size = 0
    for loc, v in matches:
        if not container(v):
            continue
        sel = [node for r in rels for node in evaluate(r, v)]
        if any(at == () for at, _ in sel):
            raise Discard
        size += sum(len(at) for at, _ in sel)
        if size > 3000:
            raise Discard
        want += expected(loc, v, sel, style)
    before = jsongen.copy(plain(doc))
    got = [plain(x) for x in call(lambda: list(run()), what="select", details=details)]
    if not jsongen.same_value(got, want):
        raise Violation("wrong projection", expected=jsongen.short(want), got=jsongen.short(got), **details)
    if not jsongen.same(plain(doc), before):
        raise Violation("the document is modified", before=jsongen.short(before), after=jsongen.short(plain(doc)), **details)
    ctx.label(f"{style}: {'nothing' if not want else 'one' if len(want) == 1 else 'several'}")
    if any(at for at, _ in matches) and want:
        ctx.label("match below the root")
    return want


# -- generation -------------------------------------------------------------------------------

FALSY = [0, False, None, "", [], {}, 0.0]


def falsify(src, v):
    """Replace many of the scalars by falsy values."""
    if isinstance(v, dict):
        return {k: falsify(src, x) for k, x in v.items()}
    if isinstance(v, list):
        return [falsify(src, x) for x in v]
    return jsongen.copy(src.choice(FALSY)) if src.bool() else v


def name_text(src, name):
    if src.bool(2, 3) and re.fullmatch("[a-zA-Z_][a-zA-Z0-9_]*", name) and name not in jsongen.RESERVED:
        return "." + name
    return refq.norm_path((name,))[1:]


def from_location(src, loc, value):
    """A relative query that selects this location and perhaps more."""
    out = "$"
    at = value
    for p in loc:
        k = src.draw(12)
        if isinstance(p, int):
            n = len(at)
            if k < 6:
                out += f"[{p}]"
            elif k < 7:
                out += f"[{p - n}]"
            elif k < 9:
                out += src.choice(["[*]", ".*", "[:]"])
            elif k < 10:
                out += src.choice([f"[{p}:]", f"[:{p + 1}]", f"[{p}:{p + 2}]", f"[{p % 2}::2]", f"[{p - n}:]"])
            elif k < 11:
                q = src.draw(n)
                out += src.choice([f"[{min(p, q)},{max(p, q)}]", f"[{p}, {q}]", f"[{p}, *]", f"[{p}::-1]", "[::-1]"])
            else:
                out += f"[?@ == @ && {src.choice(['true', '@ == @'])}]" if src.bool(1, 4) else "[*]"
        elif k < 8:
            out += name_text(src, p)
        elif k < 9:
            out += "[" + ", ".join(refq.norm_path((x,))[2:-1] for x in [p, src.choice(list(at))]) + "]"
        elif k < 10:
            out += src.choice([".*", "[*]"])
        elif k < 11 and p:
            out += ".." + refq.norm_path((p,))[1:]
        else:
            out += name_text(src, p)
        at = at[p]
    return out


def make_rels(src, value, pool, ext):
    """Texts of relative queries, and compound ones as texts too."""
    locs = [loc for loc, _ in jsongen.walk(value)][1:400]
    k = src.draw(12)
    if k < 8 and locs:
        n = src.count(1, 5, 2, 3)
        idx = [src.draw(len(locs)) for _ in range(n)]
        if src.bool(1, 3):
            idx.sort()
        rels = [from_location(src, locs[i], value) for i in idx]
    else:
        g = qgen.Gen(src, value, pool, filters=True, ext=ext, max_segs=3, fdepth=1)
        r = qgen.Render(src, ext=ext)
        rels = [r.query(g.query("$"), top=True) for _ in range(src.int(1, 3))]
    if src.bool(1, 5):
        rels.insert(src.draw(len(rels) + 1), src.choice(["$.nosuch", "$[99]", "$.*.nosuch", "$[?@.nosuch]", "$..nosuch", "$[2:1]"]))
    if src.bool(1, 8) and len(rels) > 1:
        a, b = rels.pop(), rels.pop()
        rels.append(b + src.choice([" | ", " & "]) + a)
    return rels


def make_match(src, doc, pool, ext):
    k = src.draw(12)
    if k < 3:
        return "$"
    conts = [loc for loc, v in itertools.islice(jsongen.walk(doc), 300) if isinstance(v, (dict, list))]
    if k < 7 and conts:
        return from_location(src, src.choice(conts), doc)
    if k < 9:
        return src.choice(["$.*", "$[*]", "$..*", "$.*.*", "$[0]", "$[?@.*]", "$[?@[0] || @]", "$..[0]", "$..[?@.*]", "$[-1]", "$[1:]", "$ | $.*"])
    g = qgen.Gen(src, doc, pool, filters=True, ext=ext, max_segs=3, fdepth=1)
    return qgen.Render(src, ext=ext).query(g.query("$"), top=True)


def prepare(src, doc, rels):
    """Relative queries as they are given to select."""
    return [src.choice([lambda t: t, lambda t: t, jsonpath.compile])(t) for t in rels]


def case(src, ctx):
    pool = [src.choice(["0", "1", "2", "10", "01", "-1"]) if src.bool(1, 4) else n for n in jsongen.gen_pool(src)]
    doc = jsongen.gen_doc(src, pool, scalars=False)
    if src.bool(1, 3):
        doc = falsify(src, doc)
    if not isinstance(doc, (dict, list)):
        raise Discard
    ext = src.bool(1, 4)
    mq = make_match(src, doc, pool, ext)
    try:
        mpath = METERED.compile(mq)
    except jsonpath.JSONPathError:
        raise Discard from None
    matches = evaluate(mpath, doc)
    targets = [v for _, v in matches if isinstance(v, (dict, list)) and v]
    if not targets and not src.bool(1, 10):
        raise Discard
    target = src.choice(targets) if targets else doc
    texts = make_rels(src, target, pool, ext)
    try:
        rels = [METERED.compile(t) for t in texts]
        given = prepare(src, doc, texts)
    except jsonpath.JSONPathError:
        raise Discard from None
    style = src.choice(list(STYLES))
    details = {"document": jsongen.short(doc), "query": mq, "relative": texts, "projection": style}
    if src.bool(1, 6):
        doc = dress(src, doc)
        matches = evaluate(mpath, doc)
        details["types"] = repr(doc)[:2000]
    how = src.draw(6)
    kw = {} if style == "relative" and src.bool() else {"projection": STYLES[style]}

    def run():
        if how < 2:
            q = jsonpath.query(mq, doc)
        elif how == 2:
            q = JSONPathEnvironment().query(mq, doc)
        elif how == 3:
            q = jsonpath.compile(mq).query(doc)
        elif how == 4:
            return jsonpath.query(mq, doc).skip(1).select(*given, **kw)
        else:
            return jsonpath.query(mq, doc).take(2).select(*given, **kw)
        return q.select(*given, **kw)

    chosen = matches[1:] if how == 4 else matches[:2] if how == 5 else matches
    want = judge(doc, chosen, rels, style, run, details, ctx)
    if want:
        ctx.nontrivial(doc if not details.get("types") else details["types"], mq, texts, style, how)
        ctx.sample({**details, "document": details["document"][:300], "projection of the first match": jsongen.short(want[0])[:300]})


# -- exhaustive -------------------------------------------------------------------------------

SMALL = [
    {"a": 0, "b": [False, None, ""]},
    [[0, 1], [2, 3], [4]],
    {"0": [0, {"0": 1, "1": False}], "1": {"0": []}},
    [{"a": 0, "b": 1}, {"a": 2}, {"b": {}}, 5],
    {"a": {"a": {"a": [None, [0]]}}, "b": 0},
    [0, 0, 0, 0, [0, 0]],
    [[], {}, "", 0, None],
    {"1": 1, "0": 0, "a": {"2": [], "1": {}}},
    [[[1, 2], [3, 4]], [[5, 6], [7, 8]]],
    {"a": [{"b": [1, 2, 3]}, {"b": [4, 5, 6]}, {"c": [7]}]},
    {"x": [], "y": {}, "z": [[]], "w": [{}]},
    {"": {"": [0]}, "a b": ["x"]},
]
WRAPS = {
    "$": lambda v: v,
    "$[2]": lambda v: [0, None, v, 1],
    "$.k['1']": lambda v: {"k": {"0": 1, "1": v}},
    "$.k[1][1]": lambda v: {"k": [0, [1, v]], "z": 3},
}


def spellings(loc):
    """Queries for this location: singular, and with one part a wildcard."""
    out = [refq.norm_path(loc)]
    for i in range(len(loc)):
        out.append(refq.norm_path(loc[:i]) + "[*]" + refq.norm_path(loc[i + 1:])[1:])
    return out


def lists(tier):
    for d, doc in enumerate(SMALL):
        locs = [loc for loc, _ in jsongen.walk(doc)][1:]
        exprs = list(dict.fromkeys(t for loc in locs for t in spellings(loc)))
        singular = [refq.norm_path(loc) for loc in locs]
        for wrap in WRAPS:
            yield d, wrap, [(a,) for a in exprs]
            for a in exprs:
                yield d, wrap, [(a, b) for b in exprs]
            for a in singular:
                yield d, wrap, [(a, b, c) for b in singular for c in singular] if wrap == "$" or tier == "thorough" else [(a, b, b) for b in singular]


COMPILED = {}


def compiled(text):
    p = COMPILED.get(text)
    if p is None:
        p = COMPILED[text] = METERED.compile(text)
    return p


def list_case(c, ctx):
    d, wrap, tuples = c
    for texts in tuples:
        doc = WRAPS[wrap](jsongen.copy(SMALL[d]))
        matches = evaluate(compiled(wrap), doc)
        rels = [compiled(t) for t in texts]
        path = compiled(wrap)
        for style, proj in STYLES.items():
            details = {"document": jsongen.short(doc), "query": wrap, "relative": list(texts), "projection": style}
            try:
                want = judge(doc, matches, rels, style, lambda proj=proj: path.query(doc).select(*rels, projection=proj), details, ctx)
            except Discard:
                ctx.label("selects the match itself")
                break
            if want:
                ctx.nontrivial(d, wrap, texts, style)


PROPS = [
    Prop("projections", case, quick=150000),
    Enum("every list of locations of small documents", lists, list_case),
]
