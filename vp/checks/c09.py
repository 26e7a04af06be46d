"""C09: evaluation is pure, repeatable, and unaffected by caching or interleaving."""

from __future__ import annotations

import asyncio
import json
import sys
import threading

from .. import jsongen, qgen
from ..engine import Discard, Enum, Prop, Violation
from ..jsongen import same
from ..lib import JSONPathEnvironment, call, jsonpath, meter, metered_env
from .. import pristine

RULE = (
    "histories over one to three compiled queries mixing document-independent and per-node sub-expressions "
    "(root, context, constants and functions of them; current node and key; nested filters), two to four "
    "related documents and filter contexts: evaluations through every entry point, lazy iterators advanced in "
    "a drawn interleaving, re-entrant evaluations from inside item access (a deterministic stand-in for "
    "pre-emption), recompilation, refused compilations, failing evaluations, tasks and threads. Every result "
    "is compared with that of a fresh environment with caching off; documents, contexts and string forms are "
    "compared before and after. Similar queries: texts that differ in one place (an operator, a digit, the case of "
    "a letter, quotes), documents equal for Python but not as JSON and documents edited in place, evaluated in one "
    "process and each compared with the evaluation in a process that evaluated nothing before. Exhaustive: pairs of cacheable and per-node tests on pairs of documents. "
    "Non-trivial: a query whose expected result differs between the documents or contexts of its history; "
    "distinct by (queries, documents)."
)

ASSUMPTIONS = [
    "function extensions are pure functions of their arguments",
    "thread schedules are whatever the interpreter gives with a tiny switch interval; pre-emption at item "
    "access is enumerated deterministically by re-entrant evaluation",
]


class Boom(Exception):
    pass


ARMED = [False]


def fuse(value):
    """Fails while armed (a fault injected into one evaluation)."""
    if ARMED[0]:
        raise Boom
    return value


def make_env(caching):
    env = JSONPathEnvironment(filter_caching=caching)
    env.function_extensions["fuse"] = fuse
    return env


ON = make_env(True)
OFF = make_env(False)


def fresh(text, doc, context):
    """The expected result: a new environment, no caching, first use."""
    env = metered_env(filter_caching=False)
    env.function_extensions["fuse"] = fuse
    arg = {} if context is None else {"filter_context": context}
    return [(m.path, m.obj) for m in meter(env.compile(text), doc, arg, 2500)]


# -- generation ---------------------------------------------------------------------------

def vary(src, v, pool, rate=4):
    """A document like v, with some values changed."""
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if src.bool(1, 12):
                continue
            out[k] = vary(src, x, pool, rate)
        if src.bool(1, 8):
            out[src.choice(pool)] = jsongen.gen_scalar(src, pool)
        return out
    if isinstance(v, list):
        out = [vary(src, x, pool, rate) for x in v if not src.bool(1, 12)]
        if src.bool(1, 8):
            out.insert(src.draw(len(out) + 1), jsongen.gen_scalar(src, pool))
        return out
    if src.bool(1, rate):
        return jsongen.gen_scalar(src, pool)
    return v


def rooted(src, g, depth, singular):
    """A query from the root or the filter context."""
    k = src.draw(3)
    if k == 2 and g.context is not None:
        root, at = "_", g.context
    elif k == 1 and src.bool(1, 4):
        root, at = "^", [g.doc]
    else:
        root, at = "$", g.doc
    segs, end = g.segments(at, depth, 2, singular=singular, lo=1)
    return ("q", root, segs), end


def constant(src, g, depth):
    """A test that doesn't depend on the candidate."""
    k = src.draw(8)
    if k < 2:
        return ("ex", rooted(src, g, depth, False)[0])
    if k < 4:
        q, end = rooted(src, g, depth, True)
        return ("cmp", src.choice(qgen.CMP_OPS), q, ("lit", g.literal(end)))
    if k == 4:
        q, _ = rooted(src, g, depth, True)
        p, _ = rooted(src, g, depth, True)
        return ("cmp", src.choice(qgen.CMP_OPS), q, p)
    if k == 5:
        return ("cmp", src.choice(["==", ">", "<="]), ("fn", "count", [rooted(src, g, depth, False)[0]]), ("lit", src.int(0, 4)))
    if k == 6:
        a, b = src.choice([(1, 1), (1, 2), ("a", "a"), (None, None), ("", "a"), (True, 1)])
        return ("cmp", src.choice(qgen.CMP_OPS), ("lit", a), ("lit", b))
    return ("fn", src.choice(["match", "search"]), [rooted(src, g, depth, True)[0], ("lit", g.regex())])


def mixed(src, g, cur, depth):
    """An operand or test relating the candidate to something constant."""
    k = src.draw(7)
    if k == 0:
        q, end = g.sub_query(cur, depth, True)
        return ("cmp", src.choice(qgen.CMP_OPS), q, rooted(src, g, depth, True)[0])
    if k == 1:
        return ("cmp", src.choice(qgen.CMP_OPS), ("key",), rooted(src, g, depth, True)[0])
    if k == 2:
        return ("cmp", src.choice(["==", "<"]), ("fn", "length", [g.sub_query(cur, depth, True)[0]]), ("fn", "count", [rooted(src, g, depth, False)[0]]))
    if k == 3:
        return ("cmp", src.choice(["in", "contains"]), ("key",), rooted(src, g, depth, True)[0]) if src.bool() else (
            "cmp", "in", g.sub_query(cur, depth, True)[0], rooted(src, g, depth, True)[0])
    if k == 4:
        inner = ("f", combine(src, g, g.child(cur), depth - 1)) if depth > 0 else ("w",)
        return ("ex", ("q", "@", [("c", [inner])]))
    if k == 5:
        inner = ("f", combine(src, g, g.child(g.doc), depth - 1)) if depth > 0 else ("w",)
        return ("ex", ("q", "$", [(src.choice("cd"), [inner])]))
    inner = ("f", combine(src, g, g.child(g.doc), depth - 1)) if depth > 0 else ("w",)
    return ("cmp", src.choice(["==", ">"]), ("fn", "count", [("q", src.choice("$@"), [("c", [inner])])]), ("lit", src.int(0, 3)))


def combine(src, g, cur, depth):
    k = src.draw(7)
    if k == 0:
        return g.logical(cur, depth)
    if k == 1:
        return mixed(src, g, cur, depth)
    if k == 2:
        return constant(src, g, depth)
    parts = []
    for _ in range(src.int(2, 3)):
        j = src.draw(3)
        e = constant(src, g, depth) if j == 0 else mixed(src, g, cur, depth) if j == 1 else g.logical(cur, depth, 1)
        if src.bool(1, 5):
            e = ("not", e)
        parts.append(e)
    out = parts[0]
    for p in parts[1:]:
        out = (src.choice(["and", "or"]), out, p)
    return out


def gen_query(src, doc, pool, context):
    g = qgen.Gen(src, doc, pool, filters=True, ext=True, extfuncs=True, context=context, max_desc=2, fdepth=2, max_segs=3)
    segs, cur = [], doc
    k = src.draw(8)
    if k == 0:
        segs.append(("c", [("w",)]))
        cur = g.child(cur)
    elif k < 3:
        c = g.child(cur)
        if isinstance(c, (dict, list)):
            step = g.selector(cur, 0)
            segs.append(("c", [step]))
            cur = g.step(cur, step)
    sels = [("f", combine(src, g, g.child(cur), 2))]
    if src.bool(1, 6):
        sels.append(("f", combine(src, g, g.child(cur), 1)) if src.bool() else g.selector(cur, 1))
    segs.append(("d" if src.bool(1, 6) else "c", sels))
    if src.bool(1, 5):
        segs.append(("c", [("f", combine(src, g, g.child(g.child(cur)), 1))]))
    text = qgen.Render(src, ext=True).query(("q", "^" if src.bool(1, 12) else "$", segs))
    if src.bool(1, 12):
        text += src.choice(["[?fuse(@) != 1]", "[?fuse($[0]) == fuse(@)]"])
    if src.bool(1, 8):
        text += src.choice([" | ", " & "]) + qgen.Render(src, ext=True).query(g.query())
    return text


# -- the history ------------------------------------------------------------------------------

class World:
    def __init__(self, texts, docs, contexts, details):
        self.texts, self.docs, self.contexts, self.details = texts, docs, contexts, details
        self.exp = {}
        self.log = []
        self.paths = {}
        self.snap = [(jsongen.copy(d), jsongen.containers(d)) for d in docs]
        self.csnap = [(jsongen.copy(c), jsongen.containers(c)) for c in contexts]

    def expected(self, q, d, c):
        key = (q, d, c)
        if key not in self.exp:
            try:
                self.exp[key] = fresh(self.texts[q], self.docs[d], self.contexts[c])
            except Discard:
                raise
            except Exception as err:
                raise Discard from err
        return self.exp[key]

    def path(self, q, env):
        key = (q, id(env))
        if key not in self.paths:
            self.paths[key] = env.compile(self.texts[q])
        return self.paths[key]

    def note(self, what):
        self.log.append(what)

    def fail(self, msg, **kw):
        raise Violation(msg, history="; ".join(self.log[-40:]), **kw, **self.details)

    def check(self, q, d, c, got, values, how, full=True):
        want = self.expected(q, d, c)
        if not full:
            want = want[: len(got)]
        ok = len(got) == len(want) and all(
            (g is w[1] or same(g, w[1])) if values else (g[0] == w[0] and (g[1] is w[1] or same(g[1], w[1])))
            for g, w in zip(got, want)
        )
        if not ok:
            self.fail(
                f"{how} does not give what a fresh, uncached evaluation does",
                query_number=q, document_number=d, context_number=c,
                expected=repr(want)[:1500], got=repr(got)[:1500],
            )

    def unchanged(self):
        for what, now, snap in (("document", self.docs, self.snap), ("filter context", self.contexts, self.csnap)):
            for i, (v, (old, ids)) in enumerate(zip(now, snap)):
                if not same(v, old) or jsongen.containers(v) != ids:
                    self.fail(f"a {what} was modified", number=i, before=jsongen.short(old), after=jsongen.short(v))


def evaluate(w, src, q, d, c, env, how):
    path = w.path(q, env)
    arg = {} if w.contexts[c] is None else {"filter_context": w.contexts[c]}
    doc = w.docs[d]
    w.expected(q, d, c)
    name = ["findall", "finditer", "match", "query", "findall_async", "env.findall", "finditer_async"][how]
    w.note(f"{name}(q{q}, doc{d}, ctx{c}, caching={'on' if env is ON else 'off'})")

    def run():
        if how == 0:
            return path.findall(doc, **arg), True, True
        if how == 1:
            return [(m.path, m.obj) for m in path.finditer(doc, **arg)], False, True
        if how == 2:
            m = path.match(doc, **arg)
            return ([] if m is None else [(m.path, m.obj)]), False, False
        if how == 3:
            return list(path.query(doc, **arg).items()), False, True
        if how == 4:
            return loop().run_until_complete(path.findall_async(doc, **arg)), True, True
        if how == 6:
            async def go():
                return [(m.path, m.obj) async for m in await path.finditer_async(doc, **arg)]
            return loop().run_until_complete(go()), False, True
        return env.findall(w.texts[q], doc, **arg), True, True

    got, values, full = call(run, what=name, details=dict(w.details, history="; ".join(w.log[-40:])))
    if not full and not got and w.expected(q, d, c):
        w.fail("match() gives nothing where a fresh evaluation has matches", query_number=q, document_number=d)
    w.check(q, d, c, got, values, name, full)


_LOOP = [None]


def loop():
    if _LOOP[0] is None:
        _LOOP[0] = asyncio.new_event_loop()
    return _LOOP[0]


JUNK = ["$[", "$.a[?", "$[?@.a ==]", "$[?count(@.a, 1) == 1]", "$['a", "$[?(@.a]", "$..", "$[?length(@.*)==1]", "]", "$[?1]"]


def setup(src, n_docs=None):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, depth=4, budget=24, scalars=False, shared=True)
    docs = [doc]
    for _ in range(n_docs or src.int(1, 3)):
        docs.append(vary(src, doc, pool) if src.bool(4, 5) else jsongen.gen_doc(src, pool, depth=3, scalars=False))
    context = {k: jsongen.gen_value(src, pool, 2, [6]) for k in [src.choice(pool) for _ in range(src.int(1, 3))]}
    contexts = [context, vary(src, context, pool, 2)]
    if src.bool(1, 3):
        contexts.append(None)
    texts = [gen_query(src, doc, pool, context) for _ in range(src.choice([1, 1, 1, 2, 3]))]
    details = {
        "queries": texts, "documents": [jsongen.short(d, 1500) for d in docs],
        "filter_contexts": [jsongen.short(c, 500) for c in contexts],
    }
    w = World(texts, docs, contexts, details)
    for q in range(len(texts)):
        try:
            w.path(q, ON)
            w.path(q, OFF)
        except RecursionError:
            raise Discard from None
        except Exception as err:
            raise Discard from err
    return w


def interesting(w, ctx):
    """Does some query's expected result differ between documents or contexts?"""
    per = {}
    for (q, _, _), v in w.exp.items():
        per.setdefault(q, set()).add(repr(v))
    if any(len(s) > 1 for s in per.values()):
        ctx.label("results differ along the history")
        ctx.nontrivial(w.texts, w.details["documents"])
        ctx.sample({"queries": w.texts, "history": "; ".join(w.log)[:600]})


def history(src, ctx):
    w = setup(src)
    before = {k: (str(p), hash(p)) for k, p in w.paths.items()}
    its = []
    for _ in range(src.int(2, 10)):
        k = src.draw(12)
        q, d, c = src.draw(len(w.texts)), src.draw(len(w.docs)), src.draw(len(w.contexts))
        env = OFF if src.bool(1, 6) else ON
        if k < 5:
            evaluate(w, src, q, d, c, env, src.draw(7))
        elif k < 7 and len(its) < 5:
            arg = {} if w.contexts[c] is None else {"filter_context": w.contexts[c]}
            w.expected(q, d, c)
            w.note(f"i{len(its)} = finditer(q{q}, doc{d}, ctx{c}, caching={'on' if env is ON else 'off'})")
            its.append([iter(w.path(q, env).finditer(w.docs[d], **arg)), q, d, c, [], False])
        elif k < 10 and its:
            advance(w, its, src.draw(len(its)), src.int(1, 3))
        elif k == 10:
            env2 = env
            w.note(f"compile(q{q}) again")
            again = call(env2.compile, w.texts[q], what="compile", details=w.details)
            old = w.path(q, env2)
            if not (again == old) or again != old or hash(again) != hash(old) or str(again) != str(old):
                w.fail("re-compiling the same text does not give an equal query", query_number=q)
            if src.bool():
                w.paths[(q, id(env2))] = again
        else:
            junk = src.choice(JUNK)
            w.note(f"compile({junk!r}) (refused)")
            try:
                env.compile(junk)
            except Exception:
                pass
            if "fuse(" in w.texts[q]:
                w.note(f"findall(q{q}, doc{d}) with a failing function")
                w.expected(q, d, c)
                arg = {} if w.contexts[c] is None else {"filter_context": w.contexts[c]}
                ARMED[0] = True
                try:
                    w.path(q, env).findall(w.docs[d], **arg)
                except Exception:
                    pass
                finally:
                    ARMED[0] = False
    # Drain what is left, in a drawn order.
    live = [i for i, x in enumerate(its) if not x[5]]
    while live:
        i = src.choice(live)
        advance(w, its, i, src.choice([1, 2, 10**6]))
        live = [i for i, x in enumerate(its) if not x[5]]
    w.unchanged()
    for k, p in w.paths.items():
        if k in before and (str(p) != before[k][0] or hash(p) != before[k][1]):
            w.fail("evaluation changed the compiled query", before=before[k][0], after=str(p))
        if p != (ON if k[1] == id(ON) else OFF).compile(w.texts[k[0]]):
            w.fail("after its evaluations the query is not equal to a re-compiled one", query_number=k[0])
    if its:
        ctx.label("lazy iterators")
        if len(its) > 1:
            ctx.label("several iterators")
    ctx.label("nonempty" if any(w.exp.values()) else "empty")
    interesting(w, ctx)


def advance(w, its, i, n):
    it, q, d, c, got, done = its[i]
    if done:
        return
    w.note(f"next(i{i})" + (f" x{n}" if n > 1 else ""))
    for _ in range(n):
        m = call(next, it, None, what="advancing an iterator", details=dict(w.details, history="; ".join(w.log[-40:])))
        if m is None:
            its[i][5] = True
            w.check(q, d, c, got, False, f"iterator i{i}")
            return
        got.append((m.path, m.obj))
        if len(got) > 100000:
            raise Discard


# -- re-entrant evaluation: pre-emption at item access ---------------------------------------

class Hook:
    fn = None
    depth = 0
    count = 0
    when = frozenset()

    @classmethod
    def tick(cls):
        if cls.fn is None or cls.depth:
            return
        cls.count += 1
        if cls.count in cls.when:
            cls.depth += 1
            try:
                cls.fn()
            finally:
                cls.depth -= 1


class HDict(dict):
    def __getitem__(self, k):
        Hook.tick()
        return dict.__getitem__(self, k)

    def items(self):
        for x in dict.items(self):
            Hook.tick()
            yield x

    def __len__(self):
        Hook.tick()
        return dict.__len__(self)


class HList(list):
    def __getitem__(self, k):
        Hook.tick()
        return list.__getitem__(self, k)

    def __iter__(self):
        for x in list.__iter__(self):
            Hook.tick()
            yield x


def hooked(v):
    if isinstance(v, dict):
        return HDict((k, hooked(x)) for k, x in v.items())
    if isinstance(v, list):
        return HList([hooked(x) for x in v])
    return v


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in dict.items(v)}
    if isinstance(v, list):
        return [plain(x) for x in list.__iter__(v)]
    return v


def reentrant(src, ctx):
    """Evaluations of the same compiled query started from within another's item accesses."""
    w = setup(src, 1)
    q, d, e = 0, 0, 1
    c = src.draw(len(w.contexts))
    c2 = src.draw(len(w.contexts))
    env = ON
    path = w.path(q, env)
    want = w.expected(q, d, c)
    w.expected(q, e, c2)
    arg = {} if w.contexts[c] is None else {"filter_context": w.contexts[c]}
    arg2 = {} if w.contexts[c2] is None else {"filter_context": w.contexts[c2]}
    hdoc = hooked(w.docs[d])
    Hook.when = frozenset(src.int(1, 40) for _ in range(src.int(1, 4)))
    Hook.count = 0
    inner = []

    def again():
        inner.append([(m.path, m.obj) for m in path.finditer(w.docs[e], **arg2)])

    Hook.fn = again
    w.note(f"finditer(q{q}, doc{d}, ctx{c}) with finditer(q{q}, doc{e}, ctx{c2}) inside item accesses {sorted(Hook.when)}")
    try:
        got = call(
            lambda: [(m.path, m.obj) for m in path.finditer(hdoc, **arg)],
            what="finditer", details=dict(w.details, history="; ".join(w.log)),
        )
    finally:
        Hook.fn = None
    got = [(p, plain(v)) for p, v in got]
    del want
    w.check(q, d, c, got, False, "an evaluation interrupted by another of the same query")
    for r in inner:
        w.check(q, e, c2, r, False, "an evaluation inside another of the same query")
    w.unchanged()
    if inner:
        ctx.label("re-entered")
        interesting(w, ctx)


# -- threads and tasks ----------------------------------------------------------------------------

def threads(src, ctx):
    w = setup(src)
    plan = [
        [(src.draw(len(w.texts)), src.draw(len(w.docs)), src.draw(len(w.contexts)), src.draw(4)) for _ in range(6)]
        for _ in range(4)
    ]
    for job in plan:
        for q, d, c, _ in job:
            w.expected(q, d, c)
    w.note("four threads: " + repr(plan))
    results = [[] for _ in plan]
    gate = threading.Barrier(len(plan))

    def work(i):
        gate.wait()
        for q, d, c, how in plan[i]:
            arg = {} if w.contexts[c] is None else {"filter_context": w.contexts[c]}
            try:
                if how == 3:
                    r = [(m.path, m.obj) for m in ON.finditer(w.texts[q], w.docs[d], **arg)]
                else:
                    r = [(m.path, m.obj) for m in w.path(q, ON).finditer(w.docs[d], **arg)]
            except Exception as err:
                r = err
            results[i].append((q, d, c, r))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(plan))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for res in results:
        for q, d, c, r in res:
            if isinstance(r, Exception):
                w.fail(f"an evaluation in a thread raised {type(r).__name__}: {r}", query_number=q)
            w.check(q, d, c, r, False, "an evaluation in one of several threads")
    w.unchanged()
    interesting(w, ctx)


def tasks(src, ctx):
    from .c08 import ADict, Delays, wrap

    w = setup(src)
    ADict.delays = Delays([src.draw(4) for _ in range(src.int(1, 5))])
    plan = [(src.draw(len(w.texts)), src.draw(len(w.docs)), src.draw(len(w.contexts))) for _ in range(src.int(2, 5))]
    for q, d, c in plan:
        w.expected(q, d, c)
    wrapped = [wrap(src, x) for x in w.docs]
    # AMap and ASeq are read-only views; dict and list subclasses compare as themselves.
    w.note("tasks: " + repr(plan))

    async def one(q, d, c):
        arg = {} if w.contexts[c] is None else {"filter_context": w.contexts[c]}
        out = []
        async for m in await w.path(q, ON).finditer_async(wrapped[d], **arg):
            out.append((m.path, unwrap(m.obj)))
            await asyncio.sleep(0)
        return out

    async def both():
        return await asyncio.gather(*[one(*p) for p in plan])

    res = call(lambda: loop().run_until_complete(both()), what="gathered evaluations", details=dict(w.details, history="; ".join(w.log)))
    for (q, d, c), r in zip(plan, res):
        w.check(q, d, c, r, False, "an evaluation in one of several tasks")
    interesting(w, ctx)


def unwrap(v):
    from .c08 import AMap, ASeq

    if isinstance(v, (dict, AMap)):
        return {k: unwrap(v[k]) for k in v}
    if isinstance(v, (list, ASeq)):
        return [unwrap(x) for x in v]
    return v


# -- similar queries and documents in one process ---------------------------------------------------------


def pristine_result(req):
    """(path, value) of every match, or the kind of error, in a process that did nothing before."""
    text, doc, context = req
    try:
        return shape(fresh(text, doc, context))
    except Discard:
        return None
    except RecursionError:
        return None
    except Exception as err:
        return {"error": type(err).__name__}


def shape(matches):
    return {"matches": json.dumps([[p, v] for p, v in matches])}


SWAPS = [
    ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("<", ">"), (">", "<"), ("true", "false"), ("1", "true"), ("true", "1"),
    ("@", "$"), ("$.", "@."), ("!", ""), ("?", "?!"), ("1", "1.0"), ("0", "false"), ("null", "0"), ("in ", "contains "), ("match", "search"),
    ("search", "match"), ("length", "count"), (" ", ""), ("'", '"'), ("[", "..["), ("..", "."), ("_", "$"), ("#", "@"), ("1", "2"),
    ("'a", "'A"), ("a'", "A'"), ("a", "b"), ("b", "a"), ("/", "/i"), ("*", "0"), ("^", "$"), (" | ", " & "), (" & ", " | "), ("1", "'1'"),
]


def sibling(src, text):
    """A text that differs from the given one in one place."""
    k = src.draw(8)
    if k < 5:
        old, new = src.choice([x for x in SWAPS if x[0] in text])
        at = [i for i in range(len(text)) if text.startswith(old, i)]
        i = src.choice(at)
        return text[:i] + new + text[i + len(old):]
    i = src.draw(len(text))
    if k == 5:
        return text[:i] + text[i].swapcase() + text[i + 1:]
    if k == 6 and text[i].isdigit():
        return text[:i] + str(src.draw(10)) + text[i + 1:]
    if k == 7 and text.count("'") > 1:
        i = text.index("'") + 1
        return text[:i] + src.choice(["a", " ", "A"]) + text[i:]
    return text[:i] + text[i + 1:]


def lookalike(src, v):
    """A value equal to v for Python, though not as JSON, in some places."""
    if isinstance(v, dict):
        return {k: lookalike(src, x) for k, x in v.items()}
    if isinstance(v, list):
        return [lookalike(src, x) for x in v]
    if isinstance(v, (int, float)) and v in (0, 1) and src.bool(2, 3):
        return src.choice([bool(v), int(v), float(v)])
    return v


def edit(src, doc, pool):
    """Change a document in place."""
    conts = [v for _, v in jsongen.walk(doc) if isinstance(v, (dict, list))]
    v = src.choice(conts[:40])
    if isinstance(v, dict):
        key = src.choice([*list(v)[:20], *pool])
        if key in v and src.bool(1, 3):
            del v[key]
        else:
            v[key] = jsongen.gen_value(src, pool, 1, [4])
    else:
        i = src.draw(len(v) + 1)
        if i < len(v) and src.bool(1, 3):
            del v[i]
        elif i < len(v) and src.bool():
            v[i] = jsongen.gen_value(src, pool, 1, [4])
        else:
            v.insert(i, jsongen.gen_value(src, pool, 1, [4]))


SIBLING_TEXTS = [
    "$[?@ in ['a', 'b']]", "$[?@.a == 1]", "$[?match(@.a, 'a.*')]", "$[?@ =~ /ab/]", "$[?$.a == 1 && @ == 1]", "$[?count(@.*) == 1]",
    "$[?length(@) == 1]", "$[?@ == _.a]", "$.a | $.b", "$..a", "$[?# == 'a']", "$[?@ contains 1]", "$[?search(@, 'a')]", "$[?value(@..a) == 1]",
]


def siblings(src, ctx):
    """Similar queries on similar documents, all in one process, each as in a pristine process."""
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, depth=3, budget=14, scalars=False)
    docs = [doc, lookalike(src, doc), vary(src, doc, pool)]
    contexts = [None, {"a": 1, "b": [1]}, {"a": True, "b": [1.0]}]
    base = src.choice(SIBLING_TEXTS) if src.bool(1, 4) else gen_query(src, doc, pool, contexts[1])
    if "fuse(" in base:
        raise Discard
    texts = [base]
    for _ in range(src.int(1, 3)):
        texts.append(sibling(src, src.choice(texts)))
    log = []
    seen = set()
    paths = {}
    for _ in range(src.int(4, 8)):
        t, d, c = src.draw(len(texts)), src.draw(len(docs)), src.draw(len(contexts))
        if src.bool(1, 6):
            edit(src, docs[d], pool)
            log.append(f"doc{d} is now {jsongen.short(docs[d], 400)}")
        want = pristine.ask("vp.checks.c09:pristine_result", [texts[t], docs[d], contexts[c]])
        if want is None:
            raise Discard
        how = src.draw(4)
        arg = {} if contexts[c] is None else {"filter_context": contexts[c]}
        log.append(f"{['jsonpath.finditer', 'ON.finditer', 'compiled query', 'findall_async'][how]}({texts[t]!r}, doc{d}, ctx{c})")
        try:
            if how == 0:
                ms = list(jsonpath.finditer(texts[t], docs[d], **arg))
            elif how == 1:
                ms = list(ON.finditer(texts[t], docs[d], **arg))
            elif how == 2:
                if t not in paths:
                    paths[t] = ON.compile(texts[t])
                ms = list(paths[t].finditer(docs[d], **arg))
            else:
                async def go():
                    return [m async for m in await jsonpath.finditer_async(texts[t], docs[d], **arg)]
                ms = loop().run_until_complete(go())
            got = shape([(m.path, m.obj) for m in ms])
        except Exception as err:
            got = {"error": type(err).__name__}
        if got != want:
            raise Violation(
                "the result depends on what was evaluated before", query=texts[t], document=jsongen.short(docs[d]),
                filter_context=contexts[c], expected=want, got=got, queries=texts, history="; ".join(log),
            )
        if "error" not in want:
            seen.add((t, want["matches"]))
            ctx.evals += 1
    if len({m for _, m in seen}) > 1 and len({t for t, _ in seen}) > 1:
        ctx.nontrivial(texts, jsongen.short(doc))
        ctx.sample({"similar queries": texts, "history": "; ".join(log)[:600]})


# -- pairs of cacheable and per-node tests ------------------------------------------------------------

CONST = [
    "$.k", "$.k == 1", "$['x'][0]", "_.c == 1", "_.c", "count($.l[*]) > 1", "1 == 1", "1 == 2",
    "length($.k) == 1", "value($.l[0]) == 1", "match($.s, 'a.*')", "$.l[?@ == 1]", "$.l[?@ == $.k]",
    "$.l[?# == 0]", "_.c == $.k", "$.k in $.l", "$.s =~ /a/", "$.k == undefined", "^[0].k == 1",
    "^[?@.k == 1]", "$.l[?@ == _.c]", "$..[?@ == 1]", "typeof($.k) == 'number'", "isinstance(_.c, 'number')",
]
PER = [
    "@", "@.a", "@.a == 1", "@ == 1", "@.a == $.k", "@.a == _.c", "@ == $.l[0]", "# == 0", "# == 'l'", "# == $.s",
    "@[?@ == $.k]", "@[?@ == 1 && $.k == 1]", "@[?# == 0]", "@[?# == $.k]", "length(@) == $.k", "count(@.*) == count($.l.*)",
    "@ in $.l", "$.l contains @.a", "value(@.*) == _.c", "match(@, $.s)", "length(@) == count($.l[?@ == 1])",
    "@[?@ == _.c]", "@..[?$.k == 1]", "count(@[?$.k == 1]) > 0", "# in $.l", "length(#) == $.k",
]
PAIR_DOCS = [
    {"k": 1, "l": [1, 2, 3], "s": "a", "x": [0], "y": {"a": 1}, "z": "ab", "w": [{"a": 1}, {"a": 2}, 1]},
    {"k": 2, "l": [2], "s": "b", "x": [], "y": {"a": 2}, "z": "b", "w": [{"a": 2}, 2]},
    {"l": [[1], {"a": 1}], "s": "l", "y": {"a": {"a": 1}}},
    [1, 2, "a", {"a": 1}, [1, 1]],
]
PAIR_CTX = [{"c": 1}, {"c": 2}, None]


def pairs(tier):
    for a in CONST:
        for b in PER:
            yield (a, b)


def pair_case(case, ctx):
    a, b = case
    forms = [f"$[?{a} && {b}]", f"$[?{b} || {a}]", f"$[?!({a}) && {b}]", f"$..[?{a} && !({b})]", f"$.w[?{b}, ?{a}]", f"$[?@[?{a} && {b}]]", f"$[?@[?{b}] || {a}]"]
    for text in forms:
        w = World([text], PAIR_DOCS, PAIR_CTX, {"query": text, "documents": [jsongen.short(d) for d in PAIR_DOCS], "filter_contexts": PAIR_CTX})
        for c in range(len(PAIR_CTX)):
            order = [0, 1, 2, 3, 0, 1]
            its = []
            for d in order:
                arg = {} if PAIR_CTX[c] is None else {"filter_context": PAIR_CTX[c]}
                its.append([iter(w.path(0, ON).finditer(PAIR_DOCS[d], **arg)), 0, d, c, [], False])
                w.expected(0, d, c)
            # Round-robin over all iterators, then plain re-use.
            k = 0
            while not all(x[5] for x in its):
                advance(w, its, k % len(its), 1)
                k += 1
            w.log.clear()
            for d in order:
                evaluate(w, None, 0, d, c, ON, 0)
                ctx.evals += 1
        w.unchanged()
        if len({repr(v) for v in w.exp.values()}) > 1:
            ctx.nontrivial(text)


PROPS = [
    Prop("histories", history, quick=14000, thorough=300000),
    Prop("re-entrant evaluation", reentrant, quick=16000, thorough=300000),
    Prop("tasks", tasks, quick=6000, thorough=100000),
    Prop("similar queries", siblings, quick=3600, thorough=200000, fuzz=False),
    Prop("threads", threads, quick=1600, thorough=30000, fuzz=False),
    Enum("cacheable and per-node pairs", pairs, pair_case),
]
