"""C03: every match's path, parts, pointer and parent identify exactly that node."""

from __future__ import annotations

from .. import jsongen, qgen, refptr, refq
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPointer, call, jsonpath

RULE = (
    "random (document, query) pairs; member names are drawn from pools of awkward names (quotes, "
    "controls, non-ASCII, pointer-special, integer look-alikes). Every match is compared with the "
    "location the reference evaluator assigns: normalized path, parts, pointer string, parent chain; the "
    "path is evaluated and the pointer resolved (as built and reparsed), and must give the same object. "
    "Half of the documents have leaves that are all distinct objects. Non-trivial: at least one match "
    "below the root; distinct by (query text, document)."
)

ASSUMPTIONS = [
    "member names that spell integers beyond +-(2^53-1) are excluded (known finding C03-big-integer-name)",
]


def location(m, loc, v, doc, details, src):
    d = dict(details, location=repr(loc))
    path = refq.norm_path(loc)
    if m.path != path:
        raise Violation("match path is not the node's normalized path", expected=path, got=repr(m.path), **d)
    if not refq.is_normalized(m.path):
        raise Violation("not an RFC 9535 normalized path", got=repr(m.path), **d)
    if m.obj is not v:
        raise Violation("match value is not the object in the document", got=repr(m.obj), **d)
    if m.value is not v:
        raise Violation("match.value is not match.obj", **d)
    if list(m.parts) != list(loc) or [type(p) for p in m.parts] != [type(p) for p in loc]:
        raise Violation("match parts are not the node's location", got=repr(m.parts), **d)
    if refptr.walk(doc, m.parts) is not v:
        raise Violation("following the parts gives another object", got=repr(m.parts), **d)
    ptr = call(m.pointer, what="match.pointer()", details=d)
    text = refptr.spell(loc)
    if str(ptr) != text:
        raise Violation("pointer string", expected=text, got=str(ptr), **d)
    got = call(ptr.resolve, doc, what=f"pointer {text!r}.resolve", details=d)
    if got is not v:
        raise Violation("the match's pointer resolves to another object", got=repr(got), pointer=text, **d)
    for esc in (False, True):
        if esc and "\\" in text:
            continue
        p2 = call(JSONPointer, text, unicode_escape=esc, what=f"JSONPointer({text!r}, unicode_escape={esc})", details=d)
        got = call(p2.resolve, doc, what=f"JSONPointer({text!r}).resolve", details=d)
        if got is not v:
            raise Violation("the reparsed pointer resolves to another object", got=repr(got), pointer=text, **d)


def evaluate_path(loc, v, doc, details):
    path = refq.norm_path(loc)
    d = dict(details, path=path)
    ms = call(lambda: list(jsonpath.finditer(path, jsongen.as_arg(doc))), what=f"finditer({path!r})", details=d)
    if len(ms) != 1:
        raise Violation("a normalized path selects other than one node", got=repr([m.obj for m in ms])[:500], **d)
    if not isinstance(doc, str) and ms[0].obj is not v:
        raise Violation("a normalized path selects another node", got=repr(ms[0].obj)[:500], **d)
    if ms[0].path != path:
        raise Violation("a normalized path selects a node with another path", got=ms[0].path, **d)


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    unique = src.bool(2, 3)
    doc = jsongen.gen_doc(src, pool, unique=unique, scalars=not unique)
    ext = unique and src.bool(1, 4)
    g = qgen.Gen(src, doc, pool, filters=unique and src.bool(1, 2), ext=ext, keys_ok=False, max_segs=4)
    q = g.query()
    text = qgen.Render(src, ext=ext).top(q)
    details = {"query": text, "document": jsongen.short(doc)}
    try:
        ms = list(jsonpath.finditer(text, jsongen.as_arg(doc)))
    except Exception:  # C01, C02, C06 and C13 decide which queries must evaluate
        raise Discard from None
    if unique:
        # Every node is its own object: the value tells which node a match denotes.
        where = {id(v): (loc, v) for loc, v in jsongen.walk(doc)}
        ref = []
        for m in ms:
            if id(m.obj) not in where:
                raise Violation("match value is not an object in the document", got=repr(m.obj), path=m.path, **details)
            ref.append(where[id(m.obj)])
    else:
        ref = refq.find(q, doc)
        if len(ms) != len(ref):
            raise Violation("wrong number of matches", expected=[r[0] for r in ref], got=[m.path for m in ms], **details)
    paths = {}
    top = False
    for i, (m, (loc, v)) in enumerate(zip(ms, ref)):
        if isinstance(doc, str):
            if not jsongen.same(m.obj, v):
                raise Violation("wrong value", **details)
            if m.path != refq.norm_path(loc) or tuple(m.parts) != loc:
                raise Violation("location of a node of a string document", got=m.path, **details)
            continue
        if paths.setdefault(m.path, loc) != loc:
            raise Violation("two nodes have the same path", got=m.path, **details)
        top = top or bool(loc)
        location(m, loc, v, doc, details, src)
        if len(ms) <= 4 or src.bool(1, 8):
            evaluate_path(loc, v, doc, details)
        if i > 3 and not src.bool(1, 6):
            continue
        # the parent chain
        node, l = m, loc
        while True:
            if not l:
                if node.parent is not None:
                    raise Violation("the root match has a parent", got=node.parent.path, location=repr(loc), **details)
                break
            parent = node.parent
            if parent is None:
                raise Violation("no parent", location=repr(loc), got=node.path, **details)
            node, l = parent, l[:-1]
            location(node, l, refptr.walk(doc, l), doc, details, src)
    if top:
        ctx.nontrivial(text, jsongen.short(doc))
        ctx.sample({"query": text, "document": jsongen.short(doc, 300), "paths": [m.path for m in ms[:3]]})
    for f in qgen.features(q):
        ctx.label(f)
    ctx.label("matches" if ms else "no match")


def names_case(src, ctx):
    """Every node of a document full of awkward names, by its normalized path."""
    pool = [jsongen.gen_key(src) for _ in range(src.int(1, 4))]
    doc = jsongen.gen_doc(src, pool, depth=4, budget=14, unique=True, scalars=False)
    details = {"document": jsongen.short(doc)}
    nodes = list(jsongen.walk(doc))[:60]
    for loc, v in nodes:
        evaluate_path(loc, v, doc, details)
    ms = call(lambda: list(jsonpath.finditer("$..*", doc)), what="finditer('$..*')", details=details)
    if sorted(m.path for m in ms) != sorted(refq.norm_path(l) for l, _ in jsongen.walk(doc) if l):
        raise Violation("the paths of `$..*` are not those of all nodes", got=[m.path for m in ms], **details)
    if len(nodes) > 1:
        ctx.nontrivial(jsongen.short(doc))


BIG = [name for name, _ in jsongen.big_docs()]


def big_cases(tier):
    yield from range(len(BIG))


def big_case(i, ctx):
    """Long arrays and paths of many steps."""
    name, doc = list(jsongen.big_docs())[i]
    details = {"document": name}
    where = {id(v): (loc, v) for loc, v in jsongen.walk(doc)}
    ms = call(lambda: list(jsonpath.finditer("$..*", doc)), what="finditer('$..*')", details=details)
    found = {id(m.obj): m for m in ms}
    for loc, v in jsongen.big_sample(doc):
        evaluate_path(loc, v, doc, details)
        if not loc or not isinstance(v, (list, dict)):
            continue
        ctx.nontrivial(name, loc)
        node = found.get(id(v))
        if node is None:
            raise Violation("a node is missing", location=repr(loc), **details)
        while loc:
            location(node, loc, refptr.walk(doc, loc), doc, details, None)
            node, loc = node.parent, loc[:-1]
        ctx.evals += 1
    if len({m.path for m in ms}) != len(where) - 1:
        raise Violation("two nodes have the same path, or a node is missing", **details)


PROPS = [
    Enum("deep and long", big_cases, big_case),
    Prop("matches", case, quick=120000, thorough=3000000),
    Prop("all nodes", names_case, quick=30000, thorough=600000),
]
