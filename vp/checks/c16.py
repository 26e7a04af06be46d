"""C16: Relative JSON Pointers against a model of the draft."""

from __future__ import annotations

from .. import jsongen, refptr
from ..engine import Enum, Prop, Violation
from ..lib import JSONPointer, JSONPointerError, RelativeJSONPointer, RelativeJSONPointerError, call, describe

RULE = (
    "random base pointers (mostly locations of a generated document) and relative pointers composed of a step "
    "count, a signed offset of 1-20 digits (rarely up to 4200) and a suffix (`#` or pointer tokens). The resulting pointer is "
    "compared with the model's tokens, as text, through equality and by resolving it; refusals by error family. "
    "Non-trivial: steps > 0 or an offset, with a non-empty base; distinct by (base, relative pointer). Plus all "
    "combinations of a list of bases with step counts 0-5, offsets and suffixes, and all malformed texts over a "
    "small alphabet."
)

ASSUMPTIONS = [
    "an offset applied to a final token that is not an array index, or to the root, is excluded (the property "
    "speaks of offsets added to a final array index)",
    "pointers with integer tokens beyond +-(2^53-1) are excluded (known finding C16-big-integer-token)",
    "offsets have up to 4200 digits: beyond the interpreter's limit of 4300 they are refused (known finding "
    "C16-many-digits)",
    "what a `#`-marked pointer resolves to is not judged if the parent has a member of the marked spelling",
]


def model(base, steps, offset, suffix):
    """("ok", tokens) | ("key", tokens) | ("error",) | None if not specified."""
    if steps > len(base):
        return ("error",)
    toks = base[: len(base) - steps]
    if offset:
        if not toks or not refptr.CANON.fullmatch(toks[-1]):
            return None
        n = int(toks[-1]) + offset
        if n < 0:
            return ("error",)
        toks = toks[:-1] + [str(n)]
    if suffix == "#":
        if not toks:
            return ("error",)
        return ("key", toks)
    return ("ok", toks + suffix)


def spell(steps, offset, suffix):
    out = str(steps)
    if offset:
        out += f"{offset:+d}"
    return out + (suffix if suffix == "#" else refptr.spell(suffix))


FORMS = ["rel.to(text)", "rel.to(pointer)", "pointer.to(text)", "pointer.to(rel)", "parts"]


def apply_uri(form, bt, text, esc):
    kw = {"unicode_escape": esc, "uri_decode": True}
    if form == "rel.to(text)":
        return RelativeJSONPointer(text, **kw).to(bt, **kw)
    if form == "rel.to(pointer)":
        return RelativeJSONPointer(text, **kw).to(JSONPointer(bt, **kw))
    if form == "pointer.to(rel)":
        return JSONPointer(bt, **kw).to(RelativeJSONPointer(text, **kw))
    return JSONPointer(bt, **kw).to(text, **kw)


def apply(form, base, text, esc, coded=None):
    if coded is not None:
        return apply_uri(form, *coded, esc)
    bt = refptr.spell(base)
    if form == "rel.to(text)":
        return RelativeJSONPointer(text, unicode_escape=esc).to(bt, unicode_escape=esc)
    if form == "rel.to(pointer)":
        return RelativeJSONPointer(text, unicode_escape=esc).to(JSONPointer(bt, unicode_escape=esc))
    if form == "pointer.to(text)":
        return JSONPointer(bt, unicode_escape=esc).to(text, unicode_escape=esc)
    if form == "pointer.to(rel)":
        return JSONPointer(bt, unicode_escape=esc).to(RelativeJSONPointer(text, unicode_escape=esc))
    return JSONPointer.from_parts(base, unicode_escape=esc).to(text, unicode_escape=esc)


def check(base, steps, offset, suffix, docs, forms, esc, coded=None):
    text = spell(steps, offset, suffix)
    want = model(base, steps, offset, suffix)
    d = {"base": refptr.spell(base), "relative": text}
    rel = call(RelativeJSONPointer, text, unicode_escape=esc, what=f"RelativeJSONPointer({text!r})", details=d)
    if str(rel) != text:
        raise Violation("printing a relative pointer does not return its text", got=str(rel), **d)
    if want is None:
        return want
    if coded is not None:
        d["percent-encoded"] = coded
    for form in forms:
        d["form"] = form
        try:
            ptr = apply(form, base, text, esc, coded)
        except RelativeJSONPointerError as err:
            if want[0] == "error":
                str(err)
                continue
            raise Violation(f"refused with {describe(err)}", expected=want, **d) from err
        except Exception as err:
            raise Violation(f"applying the relative pointer raised {describe(err)}", expected=want, **d) from err
        if want[0] == "error":
            raise Violation("the application should be refused", got=str(ptr), **d)
        toks = want[1]
        if want[0] == "key":
            marked = toks[:-1] + ["#" + toks[-1]]
            if str(ptr) != refptr.spell(marked):
                raise Violation("wrong pointer", expected=refptr.spell(marked), got=str(ptr), **d)
        else:
            exp = refptr.spell(toks)
            if str(ptr) != exp:
                raise Violation("wrong pointer", expected=exp, got=str(ptr), **d)
            if [str(p) for p in ptr.parts] != toks:
                raise Violation("wrong parts", expected=toks, got=repr(ptr.parts), **d)
            same = JSONPointer(exp, unicode_escape=False) if usable(toks) else JSONPointer.from_parts(toks, unicode_escape=False)
            if ptr != same:
                raise Violation("the result is not equal to the pointer the draft defines", expected=exp, **d)
        for doc in docs:
            resolve(ptr, want, doc, d)
    return want


def resolve(ptr, want, doc, d):
    toks = want[1]
    if isinstance(doc, str):
        return
    d = dict(d, document=jsongen.short(doc))
    try:
        v = refptr.resolve(doc, toks)
    except refptr.Missing:
        return
    if want[0] == "key":
        parent = refptr.resolve(doc, toks[:-1])
        if isinstance(parent, dict) and "#" + toks[-1] in parent:
            return
        exp = int(toks[-1]) if isinstance(parent, list) else toks[-1]
        got = call(ptr.resolve, doc, what="resolving the result", details=d)
        if type(got) is not type(exp) or got != exp:
            raise Violation("the key marker does not give the key or index", expected=exp, got=repr(got), **d)
        return
    got = call(ptr.resolve, doc, what="resolving the result", details=d)
    if got is not v:
        raise Violation("the result resolves to something else", expected=jsongen.short(v), got=repr(got)[:500], **d)


def usable(toks):
    return all(not refptr.CANON_SIGNED.fullmatch(t) or (len(t) < 20 and abs(int(t)) <= refptr.LIMIT) for t in toks)


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, scalars=False)
    nodes = list(jsongen.walk(doc))[:120]
    loc = src.choice(nodes)[0]
    base = [str(t) for t in loc]
    if src.bool(1, 6):
        base += [src.choice([*pool, "0", "12", "7", jsongen.gen_key(src)]) for _ in range(src.int(1, 3))]
    steps = src.weighted([(12, 0), (30, 1), (20, 2), (8, 3), (4, len(base)), (4, len(base) + 1), (2, 10), (1, 10**src.int(1, 20))])
    offset = 0
    k = src.draw(10)
    rest = base[: len(base) - steps] if steps <= len(base) else []
    last = int(rest[-1]) if rest and refptr.CANON.fullmatch(rest[-1]) and len(rest[-1]) < 10 else None
    if k < 5 and (last is not None or src.bool(1, 8)):
        if last is not None and k < 4:
            # to a sibling, or just below zero
            offset = src.choice([-last, -last - 1, -last + 1, 1, 2, 3, -1, -2, src.int(-300, 300), 10 - last])
        else:
            offset = src.choice([10, -10, 11, 99, 100, -100, 10**src.int(1, 14), -(10**src.int(1, 19)), 12345678])
            if src.bool(1, 20):
                offset *= 10 ** src.choice([20, 60, 300, 1000, 4180])
    if src.bool(1, 3):
        suffix = "#"
    else:
        suffix = []
        try:
            m = model(base, steps, offset, [])
            at = refptr.resolve(doc, m[1]) if m and m[0] == "ok" else None
        except refptr.Missing:
            at = None
        if at is not None and src.bool(3, 4):
            suffix = [str(t) for t in src.choice(list(jsongen.walk(at))[:60])[0]]
        elif src.bool():
            suffix = [src.choice([*pool, "0", "1", "-", "#", jsongen.gen_key(src)]) for _ in range(src.int(1, 3))]
    if not usable(base) or (suffix != "#" and not usable(suffix)):
        return
    plain = not any("\\" in t for t in base + (suffix if suffix != "#" else []))
    esc = plain and src.bool()
    # a '#' suffix of the pointer form is spelled with a slash, so the two can't be confused
    coded = None
    if src.bool(1, 4) and refptr.encodable(refptr.spell(base) + spell(steps, offset, suffix)):
        # the same with percent-encoded texts (of the relative one, the pointer part)
        coded = (
            refptr.percent(src, refptr.spell(base)),
            spell(steps, offset, []) + (suffix if suffix == "#" else refptr.percent(src, refptr.spell(suffix))),
        )
    w = check(base, steps, offset, suffix, [doc], [src.choice(FORMS), src.choice(FORMS)], esc, coded)
    ctx.label("unspecified" if w is None else w[0])
    if offset:
        ctx.label("offset" if abs(offset) < 10 else "long offset")
    if base and (steps or offset) and w is not None:
        ctx.nontrivial(base, steps, offset, suffix)
        ctx.sample({"base": refptr.spell(base), "relative": spell(steps, offset, suffix), "outcome": w[0]})


BASES = [
    [], [""], ["0"], ["a"], ["10"], ["a", "0"], ["a", "1"], ["a", "10", "b"], ["0", "0"], ["1", "2", "3"], ["a", "b", "c", "99"],
    ["01"], ["a", "-"], ["~", "/"], ["a", "", "0"], ["5", "x"], ["#", "3"], ["1", "12345678901"], ["\uff11"], ["a", "1.0"], ["0 ", "1"],
]
OFFSETS = [0, 1, -1, 2, -2, 5, 9, -9, 10, -10, 11, -11, 12, 98, 99, -99, 100, -100, 1000, -12345678901, 10**12, 10**400 + 7, -(10**4000)]
SUFFIXES = ["#", [], ["a"], ["0"], [""], ["#"], ["a", "b"], ["~", "/"], ["-"], ["10", "x"], ["0#"], ["+1"], ["01"], ["é"]]
ENUM_DOC = {
    "a": [10, [11], {"b": 12, "a": {"b": 1}}], "0": [1, [2, [3]]], "": {"": 1, "0": 2}, "10": {"a": 1},
    "1": {"2": [0, 1, 2, {"a": 5}], "12": 1}, "5": {"x": {"a": [1]}, "y": 2}, "~": {"/": {"a": 1}},
}
ENUM_DOC2 = [[1, [2, 3, {"a": {"b": 1}}], {"x": [1]}], {"a": [1, 2], "0": {"#": 1}}, [[0], [1], [2], [3, 4]]] + list(range(12))


def grid(tier):
    for b in range(len(BASES)):
        for steps in range(0, 6):
            for o in OFFSETS:
                yield (b, steps, o)


def grid_case(c, ctx):
    b, steps, o = c
    for suffix in SUFFIXES:
        w = check(BASES[b], steps, o, suffix, [ENUM_DOC, ENUM_DOC2], FORMS, True)
        ctx.evals += 1
        if w and w[0] != "error" and (steps or o):
            ctx.nontrivial(b, steps, o, suffix)


def malformed(tier):
    for lead in ["00", "01", "007", "0+0", "1-0", "0+01", "2-007", "1+00", "10+0", "01+1", "00#", "0-0#", "0+0/a", "01/a", "1+01#"]:
        yield lead
    for t in ["", "#", "/", "/a", "a", "+1", "-1", "+", "-", "-0", "x1", "#0", "/0", "+1#", "\uff11", "\u0661/a", "~"]:
        yield t


def malformed_case(text, ctx):
    """Texts outside the grammar are refused (with any pointer error)."""
    for fn, what in ((RelativeJSONPointer, "RelativeJSONPointer"), (JSONPointer("/a/1").to, "to")):
        try:
            got = fn(text)
        except (JSONPointerError, RelativeJSONPointerError):
            continue
        except Exception as err:
            raise Violation(f"{what}({text!r}) raised {describe(err)}", text=text) from err
        raise Violation("a malformed relative pointer is accepted", text=text, got=str(got))


PROPS = [
    Prop("applications", case, quick=400000, thorough=6000000),
    Enum("grid", grid, grid_case),
    Enum("malformed", malformed, malformed_case),
]
