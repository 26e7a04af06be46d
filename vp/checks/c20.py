"""C20: a match's pointer, used in a patch, addresses exactly the matched node."""

from __future__ import annotations

import re

from .. import jsongen, qgen, refptr
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPatch, JSONPatchError, JSONPatchTestFailure, call, jsonpath, patch_mod

RULE = (
    "random (document, query) pairs; documents have leaves that are all distinct objects, and member names "
    "from pools of awkward names (integer look-alikes among them). Up to six matches per query: `test` with the "
    "matched value, `replace` and `remove` through the match's pointer object, and through its text in a patch given as data, on copies of the document, are "
    "compared with editing the location the match's value is known to have; `test` with a different value must "
    "fail. Non-trivial: a match at least two steps below the root; distinct by (document, location). Plus every "
    "node of documents of awkward names, through `$..*`."
)

ASSUMPTIONS = [
    "`remove` of a match of the root is excluded (there is no member or element to remove)",
]

BIG = ["9007199254740992", "-9007199254740992", "123456789012345678901234567890", "9007199254740993"]


def locate(doc):
    return {id(v): loc for loc, v in jsongen.walk(doc)}


def edit(doc, loc, how, value=None):
    """A copy of doc with the node at loc replaced or removed."""
    if not loc:
        return jsongen.copy(value)
    doc = jsongen.copy(doc)
    parent = refptr.walk(doc, loc[:-1])
    if how == "replace":
        parent[loc[-1]] = jsongen.copy(value)
    else:
        del parent[loc[-1]]
    return doc


def changed(v):
    """A value that differs from v as JSON."""
    if isinstance(v, list):
        return [*v, None]
    if isinstance(v, dict):
        return {**v, "zz": 0, "zy": 1} if len(v) else []
    if isinstance(v, bool) or v is None:
        return 1 if v else 0
    if isinstance(v, str):
        return v + "x"
    return v + 1


def apply(build, doc, what, details):
    return call(lambda: build(JSONPatch()).apply(jsongen.copy(doc)), what=what, details=details)


def edits(m, loc, doc, details, new):
    d = dict(details, location=repr(loc))
    ptr = call(m.pointer, what="match.pointer()", details=d)
    v = refptr.walk(doc, loc)
    d["pointer"] = str(ptr)
    got = apply(lambda p: p.test(ptr, jsongen.copy(v)), doc, "test with the matched value", d)
    if not jsongen.same_value(got, doc):
        raise Violation("`test` changed the document", got=jsongen.short(got), **d)
    try:
        JSONPatch().test(ptr, changed(v)).apply(jsongen.copy(doc))
    except JSONPatchTestFailure:
        pass
    except Exception as err:
        raise Violation(f"`test` with another value raised {type(err).__name__}: {err}", **d) from err
    else:
        raise Violation("`test` passes with another value", value=changed(v), **d)
    got = apply(lambda p: p.replace(ptr, jsongen.copy(new)), doc, "replace", d)
    want = edit(doc, loc, "replace", new)
    if not jsongen.same_value(got, want):
        raise Violation("`replace` does not change exactly the node", expected=jsongen.short(want), got=jsongen.short(got), value=new, **d)
    if loc:
        got = apply(lambda p: p.remove(ptr), doc, "remove", d)
        want = edit(doc, loc, "remove")
        if not jsongen.same_value(got, want):
            raise Violation("`remove` does not remove exactly the node", expected=jsongen.short(want), got=jsongen.short(got), **d)
    texts(ptr, loc, doc, d, v, new)
    if loc:
        # all three at once
        got = apply(
            lambda p: p.test(ptr, jsongen.copy(v)).replace(ptr, jsongen.copy(new)).test(ptr, jsongen.copy(new)).remove(ptr),
            doc, "test, replace, test and remove", d,
        )
        if not jsongen.same_value(got, want):
            raise Violation("`test`, `replace`, `test` and `remove` of one node", expected=jsongen.short(want), got=jsongen.short(got), **d)


RE_BIG = re.compile("-?[1-9][0-9]{14,}")


def texts(ptr, loc, doc, d, v, new):
    """The pointer's text, in the JSON form of a patch."""
    if any(isinstance(k, str) and RE_BIG.fullmatch(k) and abs(int(k)) >= 2**53 for k in loc):
        return  # a known finding: pointers with such names are objects only
    text = str(ptr)
    d = dict(d, form="operations as data, with the pointer's text")
    ops = [{"op": "test", "path": text, "value": jsongen.copy(v)}, {"op": "replace", "path": text, "value": jsongen.copy(new)}]
    want = edit(doc, loc, "replace", new)
    if loc:
        want_removed = edit(doc, loc, "remove")
    # Escape sequences of the form "\u0041" are decoded in text by default, which isn't part of the property.
    for options in [{"unicode_escape": False}] + ([] if "\\" in text else [{}]):
        for how in ["replace", "remove"] if loc else ["replace"]:
            todo = ops if how == "replace" else [ops[0], {"op": "remove", "path": text}]
            got = call(
                lambda: JSONPatch(todo, **options).apply(jsongen.copy(doc)),  # noqa: B023
                what=how, details=d,
            )
            expected = want if how == "replace" else want_removed
            if not jsongen.same_value(got, expected):
                raise Violation(f"`test` and `{how}` do not edit exactly the node", expected=jsongen.short(expected), got=jsongen.short(got), options=options, **d)


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    if src.bool(1, 3):
        pool += src.subset(jsongen.DIGITS + jsongen.LOOKALIKE + BIG + ["-"], 3)
    doc = jsongen.gen_doc(src, pool, unique=True, scalars=False)
    ext = src.bool(1, 4)
    g = qgen.Gen(src, doc, pool, filters=src.bool(1, 2), ext=ext, keys_ok=False, max_segs=5)
    q = g.query()
    text = qgen.Render(src, ext=ext).top(q)
    details = {"query": text, "document": jsongen.short(doc)}
    try:
        ms = list(jsonpath.finditer(text, doc))
    except Exception:
        raise Discard from None
    where = locate(doc)
    new = jsongen.gen_value(src, pool, 2, [5])
    for _ in range(min(len(ms), 6)):
        m = ms.pop(src.draw(len(ms)))
        loc = where.get(id(m.obj))
        if loc is None:
            raise Discard  # C03 decides this
        edits(m, loc, doc, details, new)
        ctx.label(f"depth {min(len(loc), 6)}")
        if len(loc) > 1:
            ctx.nontrivial(jsongen.short(doc), loc)
            ctx.sample({"query": text, "document": jsongen.short(doc, 300), "path": m.path})
    if not ms:
        ctx.label("no match left")


def all_case(src, ctx):
    pool = [src.choice(BIG) if src.bool(1, 12) else jsongen.gen_key(src) for _ in range(src.int(1, 5))]
    doc = jsongen.gen_doc(src, pool, depth=4, budget=12, unique=True, scalars=False)
    details = {"query": "$..*", "document": jsongen.short(doc)}
    ms = call(lambda: list(jsonpath.finditer("$..*", doc)), what="finditer", details=details)
    where = locate(doc)
    new = src.choice([None, [], {}, 0, False, "x", ["y"]])
    for m in ms[:25]:
        loc = where.get(id(m.obj))
        if loc is None:
            raise Discard
        edits(m, loc, doc, details, new)
        if len(loc) > 1:
            ctx.nontrivial(jsongen.short(doc), loc)


BIG_DOCS = [name for name, _ in jsongen.big_docs()]


def big_cases(tier):
    yield from range(len(BIG_DOCS))


def big_case(i, ctx):
    """Long arrays and paths of many steps."""
    name, doc = list(jsongen.big_docs())[i]
    details = {"document": name}
    found = {id(m.obj): m for m in call(lambda: list(jsonpath.finditer("$..*", doc)), what="finditer", details=details)}
    sample = [(loc, v) for loc, v in jsongen.big_sample(doc) if loc and isinstance(v, (list, dict))]
    for loc, v in sample[:: max(1, len(sample) // 12)] + sample[-1:]:
        if id(v) not in found:
            raise Discard  # C03 decides this
        edits(found[id(v)], loc, doc, details, {"new": loc[-1]})
        ctx.evals += 1
        ctx.nontrivial(name, loc)


PROPS = [
    Enum("deep and long", big_cases, big_case),
    Prop("matches", case, quick=200000, thorough=1500000),
    Prop("all nodes", all_case, quick=40000, thorough=300000),
]
