"""C05: patch application against a reference model of RFC 6902."""

from __future__ import annotations

import io
import json

from .. import jsongen, patchgen, refpatch, refptr
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPatch, JSONPatchError, JSONPatchTestFailure, call, describe, patch_mod

RULE = (
    "random documents and patches of 1-8 operations, each generated against the state the reference "
    "model reaches after the previous ones (existing locations, insertion points at and beyond the end of "
    "arrays, `-`, non-canonical indices, missing members and parents, own children, nearly equal test "
    "values). Result compared with the model as JSON values, failures by kind; no container of the result "
    "may occur in it twice. Non-trivial: a patch of at least two operations that succeeds, or fails at the "
    "operation the model says; distinct by (patch, document). Plus every single operation with pointers of "
    "up to two tokens over a fixed alphabet on a list of small documents. Copies: after a copy (to the root, "
    "elsewhere or into its own source) every container of the copy is changed, and the source must not change."
)

ASSUMPTIONS = [
    "pointers with integer tokens beyond +-(2^53-1) are excluded (known finding C05-big-integer-name)",
    "removing the root is excluded: RFC 6902 does not say what document results",
    "a `test` whose target is missing may be reported as either kind of patch error",
]


def run(ops, doc, form, unicode_escape, uri=False):
    kw = {"unicode_escape": unicode_escape}
    if uri:
        kw["uri_decode"] = True
    if form == 0:
        return patch_mod.apply(ops, doc, **kw)
    if form == 1:
        return JSONPatch(ops, **kw).apply(doc)
    if form == 2:
        return patch_mod.apply(json.dumps(ops), json.dumps(doc), **kw)
    if form == 3:
        return JSONPatch(io.StringIO(json.dumps(ops)), **kw).apply(io.StringIO(json.dumps(doc)))
    return patch_mod.apply(iter(ops), doc, **kw)


def check(ops, doc, form, unicode_escape=True, coded=None):
    """Apply ops to doc and compare with the model; returns the model's verdict."""
    want = refpatch.apply(doc, ops)
    if want[0] == "unspecified":
        raise Discard
    d = {"patch": ops, "document": jsongen.short(doc), "form": form}
    if coded is not None:
        d["percent-encoded"] = coded
    arg = json.dumps(doc) if isinstance(doc, str) else jsongen.copy(doc)
    try:
        got = run(
            jsongen.copy(ops if coded is None else coded), arg, form if not isinstance(doc, str) else form % 2,
            unicode_escape, coded is not None,
        )
    except JSONPatchTestFailure as err:
        if want[0] == "ok":
            raise Violation(f"a valid patch fails: {describe(err)}", expected=jsongen.short(want[1]), **d) from err
        if want[1] == "test" or ops[want[2]]["op"] == "test":
            return want
        raise Violation(f"failure reported as a test failure: {describe(err)}", expected=want, **d) from err
    except JSONPatchError as err:
        if want[0] == "ok":
            raise Violation(f"a valid patch fails: {describe(err)}", expected=jsongen.short(want[1]), **d) from err
        if want[1] == "test":
            raise Violation(f"a test failure is reported as {describe(err)}", **d) from err
        return want
    except Exception as err:
        raise Violation(f"apply raised {describe(err)}", expected=str(want), **d) from err
    if want[0] != "ok":
        raise Violation(
            f"apply should fail at operation {want[2]} ({want[1]})", got=jsongen.short(got) , **d
        )
    if not jsongen.same_value(got, want[1]):
        raise Violation("wrong document", expected=jsongen.short(want[1]), got=jsongen.short(got), **d)
    ids = jsongen.containers(got)
    if len(set(ids)) != len(ids):
        raise Violation("a container occurs twice in the result", got=jsongen.short(got), **d)
    return want


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    if src.bool(1, 3):
        pool += src.subset(jsongen.DIGITS + jsongen.LOOKALIKE, 2)
    doc = jsongen.gen_doc(src, pool, depth=4, budget=16)
    ops = patchgen.patch(src, doc, pool, hi=8)
    if not ops:
        raise Discard
    plain = not any("\\" in o[k] for o in ops for k in ("path", "from") if k in o)
    coded = None
    if src.bool(1, 8) and all(refptr.encodable(o[k]) for o in ops for k in ("path", "from") if k in o):
        coded = [{k: refptr.percent(src, v) if k in ("path", "from") else v for k, v in o.items()} for o in ops]
    want = check(ops, doc, src.draw(5), unicode_escape=plain and src.bool(2, 3), coded=coded)
    for o in ops:
        ctx.label(o["op"])
    ctx.label(want[0] if want[0] == "ok" else f"fail: {want[1]}")
    if want[0] == "fail" or len(ops) > 1:
        ctx.nontrivial(repr(ops), jsongen.short(doc))
        ctx.sample({"patch": ops, "document": jsongen.short(doc, 300), "outcome": want[0]})


TOKENS = ["", "a", "b", "0", "1", "2", "3", "-", "01", "-1", "+1", "~", "/", "#a", "~a", "#0", "1.0"]
DOCS = [
    {}, [], {"a": 1}, {"0": 1, "1": [2]}, [1, 2], [[1], {"a": 2}], {"a": [1, 2]}, {"a": {"b": 1, "a": [0]}, "b": []},
    {"-": 1, "": {"": 2}}, {"~": 1, "/": {"~": [3]}}, {"a": "xyz", "b": None}, [True, [False, 1]],
    {"01": [1], "#a": 2, "~a": 3, "a": 4}, {"-1": 1, "a": [[], {}]}, None, 1, [0], {"a": [{"a": 1}, "s"]},
]


def pointers():
    out = [[]]
    out += [[t] for t in TOKENS]
    out += [[t, u] for t in TOKENS for u in TOKENS]
    return out


def singles(tier):
    for i in range(len(DOCS)):
        for p in range(len(pointers())):
            yield (i, p)


VALUES = [1, True, None, [0], {"a": 1}, 0, False, 1.0, "a", []]


def single_case(c, ctx):
    i, p = c
    doc = DOCS[i]
    ptrs = pointers()
    toks = ptrs[p]
    path = refptr.spell(toks)
    cases = []
    for name in ("add", "replace"):
        cases.append([{"op": name, "path": path, "value": {"n": [1]}}])
        # the inserted value is then modified in place
        cases.append([{"op": name, "path": path, "value": ["v"]}, {"op": "add", "path": path + "/0", "value": 1}])
    if toks:
        cases.append([{"op": "remove", "path": path}])
    for v in VALUES:
        cases.append([{"op": "test", "path": path, "value": v}])
    try:
        refptr.resolve(doc, toks)
        here = True
    except refptr.Missing:
        here = False
    others = ptrs if here else ptrs[:: 29]
    for q in others:
        dest = refptr.spell(q)
        cases.append([{"op": "move", "from": path, "path": dest}])
        cases.append([{"op": "copy", "from": path, "path": dest}])
    for ops in cases:
        try:
            w = check(ops, doc, 1)
        except Discard:
            continue
        ctx.evals += 1
        if w[0] == "ok":
            ctx.nontrivial(repr(ops), i)


# -- copies --------------------------------------------------------------------------------


def scribble(v):
    """Change every container of a value."""
    for _, x in list(jsongen.walk(v)):
        if isinstance(x, dict):
            x["scribble"] = 0
        elif isinstance(x, list):
            x.append("scribble")


def copies(src, ctx):
    """What is done to a copied value afterwards does not show at its source, nor the reverse."""
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, depth=4, budget=16, scalars=False)
    nodes = [(loc, v) for loc, v in jsongen.walk(doc) if isinstance(v, (dict, list))][:60]
    loc, v = src.choice(nodes)
    source = [str(t) for t in loc]
    dest = [] if src.bool(1, 4) else patchgen.tokens(src, doc, pool, insert=True)
    if not all(patchgen.usable(t) for t in (source, dest)):
        raise Discard
    ops = [{"op": "copy", "from": refptr.spell(source), "path": refptr.spell(dest)}]
    esc = "\\" not in ops[0]["from"] + ops[0]["path"]
    want = refpatch.apply(doc, ops)
    if want[0] != "ok":
        raise Discard
    mine = jsongen.copy(doc)
    d = {"patch": ops, "document": jsongen.short(doc)}
    # The copied value, held before the patch is applied.
    held = refptr.walk(mine, loc)
    got = call(lambda: JSONPatch(ops, unicode_escape=esc).apply(mine), what="apply", details=d)
    if not jsongen.same_value(got, want[1]):
        raise Violation("wrong document", expected=jsongen.short(want[1]), got=jsongen.short(got), **d)
    real = dest_location(want[1], dest)
    new = refptr.walk(got, real)
    ids = jsongen.containers(got)
    if len(set(ids)) != len(ids):
        raise Violation("a container occurs twice in the result", got=jsongen.short(got), **d)
    if dest and real[: len(loc)] == loc:
        ctx.label("into or next to itself")
    else:
        before = jsongen.copy(v)
        if not jsongen.same(held, before):
            raise Violation("the source changed", got=jsongen.short(held), **d)
        scribble(new)
        if not jsongen.same(held, before):
            raise Violation("a change of the copy changes its source", got=jsongen.short(held), **d)
        ctx.label("elsewhere" if dest else "to the root")
    ctx.nontrivial(repr(ops), jsongen.short(doc))


def dest_location(result, dest):
    """The location, in the result, of the value added at dest."""
    loc, at = (), result
    for t in dest:
        if isinstance(at, list):
            k = len(at) - 1 if t == "-" else int(t)
        else:
            k = t
        loc, at = loc + (k,), at[k]
    return loc


PROPS = [
    Prop("patches", case, quick=250000, thorough=3000000),
    Prop("copies", copies, quick=40000, thorough=600000),
    Enum("single operations", singles, single_case),
]
