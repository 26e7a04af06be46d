"""C15: a patch is a faithful, reusable value."""

from __future__ import annotations

import io
import json

from .. import jsongen, patchgen, refpatch, refptr
from ..engine import Discard, Enum, Prop, Violation
from ..lib import patch_mod, JSONPatch, JSONPatchError, JSONPatchTestFailure, JSONPointer, call, describe

RULE = (
    "random operation lists over the six standard operations, addne and addap, generated against the state "
    "of a first document. Patches are built from the list, JSON text, a file, a generator, builder calls with "
    "strings and with pointer objects, and from asdicts() of another; all must print the given dicts and have "
    "the effect of the reference model on several documents, one after another and repeatedly, without sharing "
    "a container between two results, a result and the patch, or a result and the caller's list. Non-trivial: "
    "an operation inserts a container, and the patch succeeds on some document; distinct by (patch, document)."
)

ASSUMPTIONS = [
    "pointers with integer tokens beyond +-(2^53-1) are excluded (known finding C15-big-integer-name)",
    "pointers with backslashes are used with escape decoding off only (decoding is not an inverse of printing)",
    "the effect of addap on array tokens that are not canonical indices, and of removing the root, is only "
    "compared between the forms: the documentation doesn't say what it is",
]

NAMES = ["add", "addne", "addap", "replace", "test", "copy", "move", "remove", "addne", "addap", "add"]


def builder(ops, kw, pointers):
    p = JSONPatch(**kw)

    def ptr(text):
        return JSONPointer(text, **kw) if pointers else text

    for o in ops:
        args = {k: v for k, v in o.items() if k != "op"}
        args["path"] = ptr(args["path"])
        if "from" in args:
            args["from_"] = ptr(args.pop("from"))
        q = getattr(p, o["op"])(**args)
        if q is not p:
            raise Violation("a builder method does not return the patch", op=o)
    return p


def once(form, ops, kw, doc):
    """jsonpath.patch.apply() with the list, its text or a file."""
    if form == "once":
        return patch_mod.apply(ops, doc, **kw)
    text = json.dumps(ops)
    return patch_mod.apply(text if form == "once-text" else io.StringIO(text), doc, **kw)


def outcome(patch, doc, single):
    """("ok", document) or ("fail", is test failure)."""
    arg = json.dumps(doc) if isinstance(doc, str) else jsongen.copy(doc)
    try:
        return ("ok", single(arg) if patch is None else patch.apply(arg))
    except JSONPatchTestFailure:
        return ("fail", True)
    except JSONPatchError:
        return ("fail", False)
    except Exception as err:
        return ("raised", describe(err))


def expected_dicts(ops):
    return [{k: o[k] for k in ("op", "from", "path", "value") if k in o} for o in ops]


def same_dicts(got, want):
    return (
        isinstance(got, list)
        and len(got) == len(want)
        and all(isinstance(g, dict) and jsongen.same_value(g, w) for g, w in zip(got, want))
    )


FORMS = ["list", "text", "file", "generator", "builder", "pointers", "asdicts"]
# The one-shot function, which makes no patch object to look at.
ONCE = ("once", "once-text", "once-file")


def build(form, ops, kw):
    if form == "list":
        return JSONPatch(ops, **kw)
    if form == "text":
        return JSONPatch(json.dumps(ops), **kw)
    if form == "file":
        return JSONPatch(io.StringIO(json.dumps(ops)), **kw)
    if form == "generator":
        return JSONPatch((o for o in ops), **kw)
    if form == "builder":
        return builder(ops, kw, False)
    if form == "pointers":
        return builder(ops, kw, True)
    return JSONPatch(JSONPatch(ops, **kw).asdicts(), **kw)


def check(ops, docs, kw, forms, repeat, given_ops=None):
    want_dicts = expected_dicts(ops)
    caller = jsongen.copy(given_ops or ops)
    wants = []
    for doc in docs:
        wants.append(refpatch.apply(doc, ops))
    seen = {}
    for form in forms:
        given = jsongen.copy(caller)
        d = {"patch": ops, "form": form, "options": kw}
        if given_ops:
            d["given"] = given_ops
        patch = None
        if form not in ONCE:
            patch = call(build, form, given, kw, what=f"constructing the patch ({form})", details=d)
            got = call(patch.asdicts, what="asdicts()", details=d)
            if not same_dicts(got, want_dicts):
                raise Violation("asdicts() is not the list of operations", expected=want_dicts, got=got, **d)
        # The results of earlier applications are kept, so that their ids stay taken.
        held = []
        owners = {}
        for i in jsongen.containers(given):
            owners[i] = "the caller's list"
        if patch is not None:
            for i in jsongen.containers([o.get("value") for o in got])[1:]:
                owners[i] = "the patch"
        for r in range(repeat):
            for n, doc in enumerate(docs):
                d["document"] = jsongen.short(doc)
                d["application"] = r + 1
                res = outcome(patch, doc, lambda a: once(form, given, kw, a))
                want = wants[n]
                if res[0] == "raised":
                    raise Violation(f"apply raised {res[1]}", **d)
                if want[0] == "unspecified":
                    prev = seen.setdefault(n, res)
                    if prev[0] != res[0] or (res[0] == "ok" and not jsongen.same_value(prev[1], res[1])):
                        raise Violation("two forms or applications have different effects", first=repr(prev), got=repr(res), **d)
                elif want[0] == "ok":
                    if res[0] != "ok":
                        raise Violation("the patch fails", expected=jsongen.short(want[1]), got=repr(res), **d)
                    if not jsongen.same_value(res[1], want[1]):
                        raise Violation(
                            "wrong document", expected=jsongen.short(want[1]), got=jsongen.short(res[1]), **d
                        )
                else:
                    if res[0] == "ok":
                        raise Violation(f"the patch should fail at operation {want[2]} ({want[1]})", got=jsongen.short(res[1]), **d)
                    if want[1] == "test" and not res[1]:
                        raise Violation("a test failure is not reported as one", **d)
                if res[0] == "ok":
                    ids = jsongen.containers(res[1])
                    for i in ids:
                        if i in owners:
                            raise Violation(f"the result shares a container with {owners[i]}", got=jsongen.short(res[1]), **d)
                    for i in ids:
                        owners[i] = "an earlier result"
                    held.append(res[1])
        if not jsongen.same(given, caller):
            raise Violation("applying the patch changed the caller's list", got=given, **d)
        if patch is None:
            continue
        got = call(patch.asdicts, what="asdicts()", details=d)
        if not same_dicts(got, want_dicts):
            raise Violation("applying the patch changed it", expected=want_dicts, got=got, **d)
    return wants


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    if src.bool(1, 4):
        pool += src.subset(jsongen.DIGITS, 2)
    docs = [jsongen.gen_doc(src, pool, depth=3, budget=12)]
    ops = patchgen.patch(src, docs[0], pool, names=NAMES, hi=7)
    if not ops:
        raise Discard
    for _ in range(src.int(0, 2)):
        docs.append(jsongen.gen_doc(src, pool, depth=3, budget=10))
    docs.append(docs[0])
    plain = not any("\\" in o[k] for o in ops for k in ("path", "from") if k in o)
    kw = {"unicode_escape": plain and src.bool()}
    forms = [src.choice(FORMS), src.choice(FORMS), "list"]
    if src.bool(1, 4):
        forms[2] = src.choice(ONCE)
    given = None
    if src.bool(1, 5) and all(refptr.encodable(o[k]) for o in ops for k in ("path", "from") if k in o):
        # pointers spelled with escape sequences and percent-encoding; printed decoded
        kw["uri_decode"] = src.bool()
        given = [dict(o) for o in ops]
        for o in given:
            for k in ("path", "from"):
                if k in o:
                    if kw["unicode_escape"]:
                        o[k] = refptr.escapes(src, o[k])
                    if kw["uri_decode"]:
                        o[k] = refptr.percent(src, o[k])
        forms = [f if f != "asdicts" else "text" for f in forms]
    wants = check(ops, docs, kw, forms, src.int(1, 3), given)
    for o in ops:
        ctx.label(o["op"])
    ok = any(w[0] == "ok" for w in wants)
    ctx.label("succeeds" if ok else "fails")
    if ok and any(isinstance(o.get("value"), (dict, list)) for o in ops):
        ctx.nontrivial(repr(ops), jsongen.short(docs[0]))
        ctx.sample({"patch": ops, "document": jsongen.short(docs[0], 300), "forms": forms})


DOCS = [{}, [], {"a": 1}, {"a": None}, {"a": {"b": 1}}, [1, 2], {"a": [1]}, [[0], {"0": 1}], 5, None, {"0": False, "-": 1}]
TOKENS = ["a", "b", "0", "1", "2", "5", "-", "01", ""]


def variants(tier):
    for i in range(len(DOCS)):
        for t in [[]] + [[a] for a in TOKENS] + [[a, b] for a in TOKENS for b in TOKENS]:
            yield (i, t)


def variant_case(c, ctx):
    """The three adds side by side, alone and twice in a row, and mutated afterwards."""
    i, toks = c
    path = refptr.spell(toks)
    for name in ("add", "addne", "addap"):
        for v in ([], {"n": []}):
            o = {"op": name, "path": path, "value": v}
            for ops in ([o], [o, o], [o, {"op": "add", "path": path + ("/-" if v == [] else "/x"), "value": [1]}]):
                wants = check(ops, [DOCS[i]], {}, FORMS if len(ops) == 2 else FORMS[:1] + FORMS[4:], 2)
                ctx.evals += 1
                if wants[0][0] == "ok":
                    ctx.nontrivial(repr(ops), i)


PROPS = [
    Prop("patches", case, quick=90000, thorough=2000000),
    Enum("adds", variants, variant_case),
]
