"""C11: all query entry points agree, whatever form the document is given in."""

from __future__ import annotations

import io
import json
import os
import random
import tempfile

from .. import jsongen, qgen
from ..engine import Discard, Enum, Prop, Src, Violation
from ..lib import JSONPathEnvironment, jsonpath
from ..jsongen import json_eq, same

RULE = (
    "random (query, document, filter context): simple, filter, extension and compound queries of one to six "
    "operands; each is run through findall, finditer, match and query, at module, environment and "
    "compiled-query level, on the parsed value, on JSON text and on text, binary and real files. Compound "
    "results are compared with a list model over the operands' own results. Exhaustive: all compounds of up "
    "to four operands over a set of queries on documents with look-alike values. Non-trivial: the result is "
    "non-empty; distinct by (query, document)."
)

ASSUMPTIONS = [
    "`values also produced by the right one` is membership by JSON equality",
    "documents given as text or files are arrays or objects",
]

_ENV = JSONPathEnvironment()
_DIR = None


def scratch():
    global _DIR
    if _DIR is None or _DIR[0] != os.getpid():
        _DIR = (os.getpid(), tempfile.TemporaryFile("w+b"))
    return _DIR[1]


def run(fn):
    """("ok", list) or ("error", class name)."""
    try:
        return ("ok", list(fn()))
    except Exception as err:
        return ("error", type(err).__name__)


def ident(a, b):
    return a.path == b.path and a.parts == b.parts and alike(a.obj, b.obj)


def alike(a, b):
    """The same object; or an equal scalar, or the list a fake root wraps its document in."""
    if a is b:
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) == 1 and a[0] is b[0]
    return not isinstance(a, dict) and same(a, b)


def compare_values(name, got, want, identity, details):
    if got[0] != "ok":
        raise Violation(f"{name} raises {got[1]} where findall returns a list", **details)
    g, w = got[1], want
    if len(g) != len(w) or not all(alike(a, b) if identity else same(a, b) for a, b in zip(g, w)):
        raise Violation(
            f"{name} does not agree with findall", got=jsongen.short(g), expected=jsongen.short(w), **details
        )


def compare_matches(name, got, want, identity, details):
    if got[0] != "ok":
        raise Violation(f"{name} raises {got[1]} where findall returns a list", **details)
    g, w = got[1], want
    ok = len(g) == len(w) and all(
        a.path == b.path and a.parts == b.parts and (alike if identity else same)(a.obj, b.obj)
        for a, b in zip(g, w)
    )
    if not ok:
        raise Violation(
            f"{name} does not agree with finditer",
            got=repr([(m.path, m.obj) for m in g])[:3000], expected=repr([(m.path, m.obj) for m in w])[:3000],
            **details,
        )


def agree(entry, name, make, ctx_arg, base, matches, identity, details, which):
    """Compare the four entry points of one level (module, environment, compiled)."""
    if which in (0, None):
        compare_values(f"{name} findall", run(lambda: entry("findall")(make(), **ctx_arg)), base, identity, details)
    if which in (1, None):
        compare_matches(f"{name} finditer", run(lambda: entry("finditer")(make(), **ctx_arg)), matches, identity, details)
    if which in (2, None):
        m = run(lambda: [entry("match")(make(), **ctx_arg)])
        if m[0] == "ok":
            m = ("ok", [x for x in m[1] if x is not None])
        compare_matches(f"{name} match", m, matches[:1], identity, details)
    if which in (3, None):
        compare_values(f"{name} query().values()", run(lambda: entry("query")(make(), **ctx_arg).values()), base, identity, details)
        compare_matches(f"{name} query()", run(lambda: entry("query")(make(), **ctx_arg)), matches, identity, details)
        items = run(lambda: entry("query")(make(), **ctx_arg).items())
        if items[0] != "ok" or [p for p, _ in items[1]] != [m.path for m in matches]:
            raise Violation(f"{name} query().items() does not agree with finditer", got=repr(items)[:2000], **details)


def levels(text, path):
    return [
        ("module", lambda op: lambda *a, **k: getattr(jsonpath, op)(text, *a, **k)),
        ("environment", lambda op: lambda *a, **k: getattr(_ENV, op)(text, *a, **k)),
        ("compiled", lambda op: getattr(path, op)),
        ("compiled in another environment", lambda op: getattr(_ENV.compile(text), op)),
    ]


def model(parts, doc, ctx_arg):
    """The list model of a compound query: [(op, compiled operand)...]."""
    out = None
    for op, path in parts:
        right = list(path.finditer(doc, **ctx_arg))
        if out is None:
            out = right
        elif op == "|":
            out = out + right
        else:
            if len(out) * len(right) > 40000:
                raise Discard  # quadratic in the library too
            out = [m for m in out if any(json_eq(m.obj, r.obj) for r in right)]
    return out


def check(text, doc, parts, context, details, src, full=False):
    ctx_arg = {} if context is None else {"filter_context": context}
    try:
        path = jsonpath.compile(text)
    except Exception as err:
        raise Discard from err
    want = None
    if parts is not None:
        want = run(lambda: model(parts, doc, ctx_arg))
        if want[0] == "error" and want[1] == "Discard":
            raise Discard
    base = run(lambda: path.findall(doc, **ctx_arg))
    if base[0] == "error":
        it = run(lambda: path.finditer(doc, **ctx_arg))
        if it[0] != "error":
            raise Violation(f"findall raises {base[1]} where finditer gives matches", **details)
        raise Discard
    base = base[1]
    it = run(lambda: path.finditer(doc, **ctx_arg))
    if it[0] != "ok" or len(it[1]) != len(base) or not all(alike(m.obj, v) for m, v in zip(it[1], base)):
        raise Violation(
            "findall is not the list of values of finditer", findall=jsongen.short(base),
            finditer=repr(it[1] if it[0] == "error" else [m.obj for m in it[1]])[:3000], **details,
        )
    matches = it[1]
    if want is not None:
        if want[0] == "error":
            raise Violation(f"an operand raises {want[1]} where the compound query does not", **details)
        want = want[1]
        if len(want) != len(matches) or not all(map(ident, want, matches)):
            raise Violation(
                "the compound query's result is not its operands' combined left to right",
                got=repr([(m.path, m.obj) for m in matches])[:3000],
                expected=repr([(m.path, m.obj) for m in want])[:3000], **details,
            )
    lv = levels(text, path)
    if full:
        for name, entry in lv:
            agree(entry, name, lambda: doc, ctx_arg, base, matches, True, details, None)
    else:
        for name, entry in lv:
            agree(entry, name, lambda: doc, ctx_arg, base, matches, True, details, src.draw(4))
    if not isinstance(doc, (dict, list)):
        return base
    forms = [
        ("JSON text", lambda: json.dumps(doc)),
        ("JSON text", lambda: json.dumps(doc, ensure_ascii=False)),
        ("indented JSON text", lambda: "\n " + json.dumps(doc, indent=1, ensure_ascii=False) + " \n"),
        ("a text file object", lambda: io.StringIO(json.dumps(doc))),
        ("a binary file object", lambda: io.BytesIO(json.dumps(doc, ensure_ascii=False).encode())),
        ("a file", lambda: real_file(doc)),
    ]
    todo = [(f, w, e) for f in forms for w in range(4) for e in lv[:3]] if full else [
        (src.choice(forms), src.draw(4), src.choice(lv)) for _ in range(3)
    ]
    for (fname, make), which, (name, entry) in todo:
        d = dict(details, form=fname)
        agree(entry, f"{name} on {fname}:", make, ctx_arg, base, matches, False, d, which)
    return base


def real_file(doc):
    fd = scratch()
    fd.seek(0)
    fd.truncate()
    fd.write(json.dumps(doc).encode())
    fd.seek(0)
    return io.TextIOWrapper(io.BufferedReader(os.fdopen(os.dup(fd.fileno()), "rb", buffering=0)), "utf-8")


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, shared=True)
    if isinstance(doc, str):
        raise Discard
    context = None
    ext = src.bool()
    if ext and src.bool():
        context = {src.choice(pool): jsongen.gen_value(src, pool, 2, [6]) for _ in range(src.int(0, 3))}
    kw = dict(filters=src.bool(2, 3), ext=ext, extfuncs=ext, context=context, max_segs=3, fdepth=1)
    n = src.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
    qs = []
    for _ in range(n):
        if qs and src.bool(1, 6):
            qs.append(src.choice(qs))
            continue
        g = qgen.Gen(src, doc, pool, **kw)
        root = "^" if ext and src.bool(1, 10) else "$"
        q = g.query(root)
        if not q[2] and src.bool(3, 4):
            q = ("q", root, [("c", [("w",)])])
        if src.bool(1, 4):
            q = ("q", "$", [("d", [("w",)])]) if src.bool() else ("q", "$", [("c", [("w",)])])
        qs.append(q)
    ops = [src.choice("|&") for _ in qs[1:]]
    r = qgen.Render(src, ext=ext)
    texts = [r.query(q, top=True) for q in qs]
    text = texts[0]
    parts = None
    if n > 1:
        for op, t in zip(ops, texts[1:]):
            text += r.pick([" ", "", "\n"]) + op + r.pick([" ", "", "\t"]) + t
        try:
            parts = [(op, jsonpath.compile(t)) for op, t in zip(["|"] + ops, texts)]
        except Exception as err:
            raise Discard from err
    details = {"query": text, "document": jsongen.short(doc), "filter_context": repr(context)}
    base = check(text, doc, parts, context, details, src)
    if n > 1 and src.bool(1, 3):
        built(text, texts, ops, doc, context, base, details)
    ctx.label(f"{n} operands")
    for op in set(ops):
        ctx.label(op)
    if base:
        ctx.label("nonempty")
        ctx.nontrivial(text, jsongen.short(doc))
        if n > 1:
            ctx.sample({"query": text, "document": jsongen.short(doc, 300), "result": jsongen.short(base, 300)})


def built(text, texts, ops, doc, context, base, details):
    """The same compound query, grown with union() and intersection()."""
    arg = {} if context is None else {"filter_context": context}
    path = jsonpath.compile(texts[0] + " " + ops[0] + " " + texts[1])
    for op, t in zip(ops[1:], texts[2:]):
        right = jsonpath.compile(t)
        path = path.union(right) if op == "|" else path.intersection(right)
    compare_values("a compound query built with union() and intersection()", run(lambda: path.findall(doc, **arg)), base, True, details)


# -- every compound of up to four operands --------------------------------------------------

DOCS = [
    {"a": [1, True, 1.0, 0, False, None, ""], "b": [1, 0, "", [1], {"x": 1}], "c": [True, False, [True], {"x": True}]},
    [[0], [False], [0.0], [[0]], 0, False, None, {"a": 0}, {"a": False}],
    {"a": [1, 1, 2], "b": [2, 3], "c": [1, 2, 3]},
    {"a": [], "b": [[]], "c": [{}, []]},
]
OPERANDS = ["$.a[*]", "$.b[*]", "$.c[*]", "$[*]", "$..*", "$.nope"]


def compounds(tier):
    top = 3 if tier == "quick" else 4

    def grow(prefix, k):
        yield prefix
        if k:
            for op in "|&":
                for q in OPERANDS:
                    yield from grow(prefix + [(op, q)], k - 1)

    for q in OPERANDS:
        yield from grow([("|", q)], top - 1)


def compound_case(parts, ctx):
    text = parts[0][1] + "".join(f" {op} {q}" for op, q in parts[1:])
    for i, doc in enumerate(DOCS):
        details = {"query": text, "document": jsongen.short(doc)}
        compiled = [(op, jsonpath.compile(q)) for op, q in parts]
        base = check(text, doc, compiled, None, details, Src(random.Random(text + str(i))), full=len(parts) < 3)
        ctx.evals += 1
        if base:
            ctx.nontrivial(text, i)


PROPS = [
    Prop("entry points", case, quick=40000, thorough=600000),
    Enum("compounds", compounds, compound_case),
]
