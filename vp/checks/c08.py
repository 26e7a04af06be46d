"""C08: the async API returns what the sync API returns."""

from __future__ import annotations

import asyncio
import io
import json
from collections.abc import Mapping, Sequence

from .. import jsongen, qgen
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPathEnvironment, jsonpath

BIG_INT_NAMES = True
RULE = (
    "random (query, document, filter context) over standard, filter, extension and compound queries, under "
    "environments with and without caching and type checks, with functions that fail on some values, on plain "
    "documents, JSON text, files, and documents whose containers supply an async item getter that suspends a "
    "drawn number of times; findall_async and finditer_async are compared with findall and finditer (path, "
    "parts, value identity, or the class of the error), alone, gathered with other evaluations on one loop, "
    "and with several async iterators advanced in a drawn interleaving. Exhaustive: every selector (and every "
    "small filter) applied as child and descendant to every kind of value. Non-trivial: at least one match, "
    "or an error; distinct by (query, document)."
)

ASSUMPTIONS = ["async item getters return the very items the sync getter returns"]


# -- containers with an async item getter -------------------------------------------------

class Delays:
    """How many times each async item access suspends."""

    def __init__(self, seq):
        self.seq = seq
        self.i = 0

    async def wait(self):
        if self.seq:
            n = self.seq[self.i % len(self.seq)]
            self.i += 1
            for _ in range(n):
                await asyncio.sleep(0)


class ADict(dict):
    delays = Delays(())
    gets = 0

    async def __getitem_async__(self, key):
        ADict.gets += 1
        await ADict.delays.wait()
        return self[key]


class AList(list):
    async def __getitem_async__(self, key):
        ADict.gets += 1
        await ADict.delays.wait()
        return self[key]


class AMap(Mapping):
    def __init__(self, data):
        self._data = data

    def __getitem__(self, key):
        return self._data[key]

    def __iter__(self):
        return iter(self._data)

    def __len__(self):
        return len(self._data)

    def __repr__(self):
        return f"AMap({self._data!r})"

    async def __getitem_async__(self, key):
        ADict.gets += 1
        await ADict.delays.wait()
        return self._data[key]


class ASeq(Sequence):
    def __init__(self, data):
        self._data = data

    def __getitem__(self, key):
        return self._data[key]

    def __len__(self):
        return len(self._data)

    def __repr__(self):
        return f"ASeq({self._data!r})"

    async def __getitem_async__(self, key):
        ADict.gets += 1
        await ADict.delays.wait()
        return self._data[key]


def wrap(src, v):
    if isinstance(v, dict):
        out = {k: wrap(src, x) for k, x in v.items()}
        return src.choice([dict, ADict, AMap])(out)
    if isinstance(v, list):
        out = [wrap(src, x) for x in v]
        return src.choice([list, AList, ASeq])(out)
    return v


# -- environments ----------------------------------------------------------------------------

def picky(value):
    """A function that fails for some values, with various errors."""
    if value is True:
        raise jsonpath.JSONPathTypeError("picky")
    if value == 1:
        raise ValueError("picky")
    if isinstance(value, str) and len(value) > 2:
        raise KeyError(value)
    return value


def make_env(**kw):
    env = JSONPathEnvironment(**kw)
    env.function_extensions["picky"] = picky
    return env



ENVS = [
    make_env(), make_env(filter_caching=False), make_env(well_typed=False),
    make_env(unicode_escape=False),
]
_LOOP = [None]


def loop():
    if _LOOP[0] is None:
        _LOOP[0] = asyncio.new_event_loop()
    return _LOOP[0]


def sig(m):
    return (m.path, m.parts, m.obj, m.parent.path if m.parent is not None else None, m.filter_context())


def sync_run(fn):
    try:
        return ("ok", list(fn()))
    except RecursionError:
        raise Discard from None
    except Exception as err:
        return ("error", type(err).__name__)


async def async_list(aw):
    return await aw()


async def async_iter(aw):
    it = await aw()
    return [m async for m in it]


async def guard(coro):
    try:
        return ("ok", await coro)
    except Exception as err:
        return ("error", type(err).__name__)


def same_out(a, b, iters, plain):
    """Do two outcomes agree?  plain: values may only be equal (documents were loaded twice)."""
    if a[0] != b[0]:
        return False
    if a[0] == "error":
        return a[1] == b[1]
    if len(a[1]) != len(b[1]):
        return False
    for x, y in zip(a[1], b[1]):
        if iters:
            if x.path != y.path or x.parts != y.parts:
                return False
            px, py = x.parent, y.parent
            if (px is None) != (py is None) or (px is not None and px.path != py.path):
                return False
            x, y = x.obj, y.obj
        if x is y:
            continue
        if not plain or not (same_any(x, y)):
            return False
    return True


def same_any(x, y):
    """Sameness of values that may be wrapped."""
    if isinstance(x, (dict, AMap)) and isinstance(y, (dict, AMap)):
        return list(x) == list(y) and all(same_any(x[k], y[k]) for k in x)
    if isinstance(x, (list, ASeq)) and isinstance(y, (list, ASeq)):
        return len(x) == len(y) and all(same_any(p, q) for p, q in zip(x, y))
    return type(x) is type(y) and x == y


def show(out):
    if out[0] == "error":
        return out[1]
    return repr([(x.path, x.obj) if hasattr(x, "parts") else x for x in out[1]])[:3000]


class Job:
    """One evaluation: a sync outcome and a way to run its async twin."""

    def __init__(self, path, make, arg, iters, details, plain):
        self.path, self.make, self.arg, self.iters, self.details = path, make, arg, iters, details
        # The fake root's own value is made anew by each evaluation.
        self.plain = plain or "^" in details["query"]
        self.want = sync_run(
            lambda: path.finditer(make(), **arg) if iters else path.findall(make(), **arg)
        )

    def coro(self):
        if self.iters:
            return async_iter(lambda: self.path.finditer_async(self.make(), **self.arg))
        return async_list(lambda: self.path.findall_async(self.make(), **self.arg))

    def check(self, got, how):
        # A slice of a wrapped sequence is a new list; its items are the same.
        if not same_out(self.want, got, self.iters, self.plain):
            name = "finditer_async" if self.iters else "findall_async"
            raise Violation(
                f"{name} does not agree with its sync counterpart ({how})",
                sync=show(self.want), **{"async": show(got)}, **self.details,
            )


def run_jobs(src, jobs):
    k = src.draw(4)
    lp = loop()
    if len(jobs) == 1 or k == 0:
        for j in jobs:
            j.check(lp.run_until_complete(guard(j.coro())), "alone")
    elif k < 3:
        async def both():
            return await asyncio.gather(*[guard(j.coro()) for j in jobs])
        for j, got in zip(jobs, lp.run_until_complete(both())):
            j.check(got, "gathered with other evaluations")
    else:
        order = [src.draw(len(jobs)) for _ in range(src.int(0, 30))]
        for j, got in zip(jobs, lp.run_until_complete(interleave(jobs, order))):
            if got is not None:
                j.check(got, "with other iterators advanced in between")


async def interleave(jobs, order):
    its, outs = [], []
    for j in jobs:
        try:
            if not j.iters:
                its.append(None)
                outs.append(await guard(j.coro()))
                continue
            its.append((await j.path.finditer_async(j.make(), **j.arg)).__aiter__())
            outs.append(("ok", []))
        except Exception as err:
            its.append(None)
            outs.append(("error", type(err).__name__))

    async def step(i):
        if its[i] is None:
            return
        try:
            outs[i][1].append(await its[i].__anext__())
        except StopAsyncIteration:
            its[i] = None
        except Exception as err:
            its[i] = None
            outs[i] = ("error", type(err).__name__)

    for i in order:
        await step(i)
    while any(it is not None for it in its):
        for i in range(len(its)):
            await step(i)
    return outs


def gen_query(src, doc, pool, context):
    ext = src.bool(2, 3)
    kw = dict(filters=src.bool(3, 4), ext=ext, extfuncs=ext, context=context, max_segs=3, fdepth=2)
    n = src.choice([1, 1, 1, 2, 3])
    g = [qgen.Gen(src, doc, pool, **kw).query("^" if ext and src.bool(1, 8) else "$") for _ in range(n)]
    r = qgen.Render(src, ext=ext)
    text = r.query(g[0], top=True)
    for q in g[1:]:
        text += r.pick([" ", ""]) + src.choice("|&") + r.pick([" ", ""]) + r.query(q, top=True)
    k = src.draw(16)
    if k == 0:  # a function that fails on some values
        text += src.choice(["[?picky(@) == 1]", "[?picky(@.a) < 'b']", "..[?picky(@) != picky(@[0])]", "[?@ == 1 || picky(@) == 2]"])
    elif k == 1:  # probably refused
        i = src.draw(len(text) + 1)
        text = text[:i] + src.choice(["]", "[", "'", "..", "$", "?", " ", "(", ",", "1", "&&", "|"]) + text[i:]
    elif k == 2:  # ill-typed
        text += src.choice(["[?length(@, 1) == 1]", "[?count(1) == 1]", "[?match(@.a)]", "[?length()]", "[?nope(@.a) == 1]", "[?@.* == 1]", "[?length(@.*) == 1]", "[?value(@.*, @.a) == 1]", "[?@..a > @.*]"])
    return text


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, shared=True)
    context = None
    if src.bool(1, 3):
        context = {src.choice(pool): jsongen.gen_value(src, pool, 2, [6]) for _ in range(src.int(0, 3))}
    ADict.delays = Delays([src.draw(4) for _ in range(src.draw(5))])
    ADict.gets = 0
    jobs = []
    n = src.choice([1, 1, 2, 3, 4])
    env = src.choice(ENVS)
    path = None
    wrapped = src.bool(1, 3)
    wdoc = wrap(src, doc) if wrapped else doc
    wcontext = wrap(src, context) if wrapped and context is not None else context
    for _ in range(n):
        if path is None or not src.bool(1, 3):
            text = gen_query(src, doc, pool, context)
            details = {"query": text, "document": repr(wdoc)[:3000], "filter_context": repr(wcontext)}
            try:
                path = env.compile(text)
            except Exception as err:
                compile_error(env, text, wdoc, type(err).__name__, details)
                ctx.label("refused")
                path = None
                continue
        arg = {} if context is None else {"filter_context": wcontext}
        form = src.draw(12)
        make, plain = (lambda: wdoc), wrapped
        if form == 0 and isinstance(doc, (dict, list)) and not isinstance(doc, str):
            make, plain = (lambda: json.dumps(doc)), True
        elif form == 1:
            make, plain = (lambda: io.StringIO(json.dumps(doc))), True
        elif form == 2 and src.bool(1, 4):
            bad = src.choice(["[1,", "{", "", "[]]", "nul", "1e400", "\"a\""])
            make, plain = (lambda bad=bad: bad), True
        elif isinstance(doc, str):
            make, plain = (lambda: json.dumps(doc)), True
        jobs.append(Job(path, make, arg, src.bool(), details, plain))
    if not jobs:
        return
    run_jobs(src, jobs)
    if len(jobs) > 1:
        ctx.label("several evaluations")
    if ADict.gets:
        ctx.label("async item getter used")
    if src.bool(1, 8):
        module_level(jobs[0], text, wdoc, wcontext)
    for j in jobs:
        ctx.label("error" if j.want[0] == "error" else ("nonempty" if j.want[1] else "empty"))
        if j.want[0] == "error" or j.want[1]:
            ctx.nontrivial(j.details["query"], j.details["document"])
            ctx.sample({"query": j.details["query"], "document": j.details["document"][:300], "sync": show(j.want)[:300]})


def compile_error(env, text, doc, name, details):
    for op in ("findall_async", "finditer_async"):
        got = loop().run_until_complete(guard(getattr(env, op)(text, doc)))
        if got != ("error", name):
            raise Violation(f"{op} does not raise what the sync call does", sync=name, **{"async": repr(got)[:500]}, **details)


def module_level(job, text, doc, context):
    """The module-level functions (default environment)."""
    if isinstance(doc, str):
        return
    a = {} if context is None else {"filter_context": context}
    for op, iters in (("findall", False), ("finditer", True)):
        want = sync_run(lambda: getattr(jsonpath, op)(text, doc, **a))
        f = async_iter if iters else async_list
        got = loop().run_until_complete(guard(f(lambda: getattr(jsonpath, op + "_async")(text, doc, **a))))
        if not same_out(want, got, iters, True):
            raise Violation(
                f"jsonpath.{op}_async does not agree with jsonpath.{op}", sync=show(want),
                **{"async": show(got)}, query=text, document=repr(doc)[:3000], filter_context=repr(context),
            )


# -- every selector on every kind of value ---------------------------------------------------

KIND_VALUES = [
    None, True, False, 0, 1, -1, 1.5, "", "a", "abc", [], [1], [[1], "x", {"a": 2}], {}, {"a": 1},
    {"0": 5, "1": [1, 2], "-1": "n"}, {"": 0}, [None], [0, [1, [2, [3]]]], {"a": {"a": {"a": 1}}},
    ["abc", "", ["x"]], {"a": "abc", "b": ""}, [{"a": "a"}, {"a": ["a"]}, {"b": None}],
]
SELS = ["'a'", "''", "'0'", "0", "-1", "1", "2", ":", "0:1", "::-1", "::0", "-2:", "*", "~", "a"]
TESTS = [
    "@", "@.a", "@[0]", "@.*", "@..*", "@[?@]", "@[?@ == 1]", "!@.a", "@.a && @[0]", "@.a || @[0]", "@ == 1",
    "@.a == @[0]", "@ == 'a'", "@.a != $.a", "@ < 2", "@ <= 'b'", "# == 0", "# == 'a'", "# > 0", "$.a", "$[0]",
    "_.x == @", "_.x", "_", "^", "^[0] == @", "^[?@ == $]", "@ in $", "'a' in @", "@ contains 'a'", "@ in ['a', 1]",
    "@ =~ /a.*/", "@ == undefined", "@.a != missing", "length(@) == 1", "length(@.a) > 0", "count(@.*) == 1",
    "count($..*) > 1", "value(@.*) == 1", "value($.a) == @", "match(@, 'a.*')", "search(@.a, 'b')",
    "isinstance(@.a, 'string')", "typeof(@) == 'array'", "length(#) > 0", "_.l contains @", "_.s =~ /x/",
    "count(_.l[*]) == 2", "_.l[?@ == 1]", "length(_.s) == 1",
]


def kinds(tier):
    for i in range(len(KIND_VALUES)):
        for kind in ("", ".."):
            yield (i, kind)


def kind_case(c, ctx):
    i, kind = c
    v = KIND_VALUES[i]
    lists = [f"[{a}]" for a in SELS] + [f"[{a}, {b}]" for a in SELS for b in SELS]
    lists += [f"[?{t}]" for t in TESTS] + [f"[?{t}, 0, *]" for t in TESTS] + [f"[?!({t})]" for t in TESTS]
    lp = loop()
    ADict.delays = Delays(())
    for wrapn, doc in enumerate([v, [v], {"k": v}, AList([AMap({"a": v, "b": v}), ASeq([v, v]), v])]):
        if isinstance(doc, str):
            doc_arg = json.dumps(doc)
        else:
            doc_arg = doc
        pre = "" if wrapn == 0 else "[*]"
        for sel in lists:
            text = f"${pre}{kind}{sel}"
            details = {"query": text, "document": repr(doc)}
            path = jsonpath.compile(text)
            arg = {"filter_context": {"x": 1, "l": [1, "a"], "s": "x"}}
            for iters in (True, False):
                j = Job(path, lambda: doc_arg, arg, iters, details, wrapn in (0, 3))
                j.check(lp.run_until_complete(guard(j.coro())), "alone")
                ctx.evals += 1
            if j.want[0] == "error" or j.want[1]:
                ctx.nontrivial(text, repr(doc))


PROPS = [
    Prop("queries", case, quick=60000, thorough=1200000),
    Enum("kinds", kinds, kind_case),
]
