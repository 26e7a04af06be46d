"""C12: query iterator operations against a list model."""

from __future__ import annotations

from .. import jsongen, qgen
from ..engine import Discard, Enum, Prop, Violation
from ..lib import call, jsonpath

RULE = (
    "chains of query-iterator operations run on the query and, as list operations, on the list of "
    "(path, value) of its matches; take and tee make further live iterators, each of which is continued "
    "and compared. Exhaustive: every chain of up to three operations with every count from -1 to one past "
    "the length, on match sequences of length 0..5 (thorough: 0..6); random: chains of up to 14 operations "
    "over generated queries and interleaved consumption. Non-trivial: some matches remain and at least two "
    "operations changed the list; distinct by (length, chain)."
)

ASSUMPTIONS = [
    "after tee() the original query is not used (its documentation says it is not safe)",
    "operations after a terminal last_one() or a view are not judged",
    "counts are at most sys.maxsize",
]

LIMIT = ("limit", "head", "first")
DROP = ("skip", "drop")
TAIL = ("tail", "last")
ONE = ("first_one", "one")


def key(m):
    return (m.path, id(m.obj))


class Live:
    """A query under test and the list it should behave as."""

    def __init__(self, query, model):
        self.query = query
        self.model = model
        self.changed = 0


def apply(live, op, n, details):
    """Apply one operation; returns the new live iterators it makes."""
    q = live.query
    if n is not None and n < 0:
        try:
            getattr(q, op)(n)
        except ValueError:
            return []
        except Exception as err:
            raise Violation(f"{op}({n}) raised {type(err).__name__}, not ValueError", **details) from err
        raise Violation(f"{op}({n}) is not refused", **details)
    if op in LIMIT:
        res = call(getattr(q, op), n, what=f"{op}({n})", details=details)
        new = live.model[:n]
    elif op in DROP:
        res = call(getattr(q, op), n, what=f"{op}({n})", details=details)
        new = live.model[n:]
    elif op in TAIL:
        res = call(getattr(q, op), n, what=f"{op}({n})", details=details)
        new = live.model[-n:] if n else []
    elif op == "take":
        res = call(q.take, n, what=f"take({n})", details=details)
        part = Live(res, live.model[:n])
        live.model = live.model[n:]
        live.changed += 1
        return [part]
    elif op == "tee":
        res = call(q.tee, n, what=f"tee({n})", details=details) if n is not None else call(q.tee, details=details)
        want = 2 if n is None else n
        if len(res) != want:
            raise Violation(f"tee({n}) gives {len(res)} iterators", **details)
        out = [Live(x, list(live.model)) for x in res]
        for x in out:
            x.changed = live.changed + 1
        live.query = None
        return out
    elif op in ONE:
        got = call(getattr(q, op), what=op, details=details)
        want = live.model[0] if live.model else None
        if (None if got is None else key(got)) != want:
            raise Violation(
                f"{op}() gives {None if got is None else got.path!r}, not "
                f"{None if want is None else want[0]!r}", **details,
            )
        live.model = live.model[1:]
        live.changed += 1
        return []
    else:
        raise AssertionError(op)
    if new != live.model:
        live.changed += 1
    live.model = new
    live.query = res
    return []


VIEWS = ("iter", "values", "locations", "items", "pointers", "last_one", "first_one", "one")


def start(live, view):
    """An iterator of comparable things for a view, and the list it should give."""
    q, m = live.query, live.model
    if view == "values":
        return (id(v) for v in q.values()), [x[1] for x in m]
    if view == "locations":
        return iter(q.locations()), [x[0] for x in m]
    if view == "items":
        return ((p, id(v)) for p, v in q.items()), m
    if view == "pointers":
        return (str(p) for p in q.pointers()), [PTR[x] for x in m]
    if view == "last_one":
        got = q.last_one()
        return iter([None if got is None else key(got)]), [m[-1] if m else None]
    if view in ONE:
        got = getattr(q, view)()
        return iter([None if got is None else key(got)]), [m[0] if m else None]
    return (key(x) for x in q), m


PTR = {}


def finish(lives, views, order, details):
    """Consume every live iterator (interleaved by `order`) and compare."""
    runs = []
    for live, view in zip(lives, views):
        if live.query is None:
            continue
        it, want = call(start, live, view, what=view, details=details)
        runs.append((it, want, [], view))
    done = [False] * len(runs)
    k = 0
    while not all(done):
        i = order(len(runs)) if k < 400 else done.index(False)
        k += 1
        if done[i]:
            i = done.index(False)
        it, want, got, view = runs[i]
        x = call(next, it, StopIteration, what=f"iterating over {view}", details=details)
        if x is StopIteration:
            done[i] = True
        else:
            got.append(x)
            if len(got) > len(want):
                done[i] = True
    for _, want, got, view in runs:
        if got != want:
            raise Violation(
                f"the {view} view does not list what the list operations give",
                expected=repr(want)[:1000], got=repr(got)[:1000], **details,
            )


# -- exhaustive short chains --------------------------------------------------------

def ops(n):
    out = []
    for op in LIMIT + DROP + TAIL + ("take",):
        for c in range(-1, n + 2):
            out.append((op, c))
    for c in (-1, 0, 1, 2, 3, None):
        out.append(("tee", c))
    out += [(op, None) for op in ONE]
    return out


# Duplicates and falsy values among the matches.
ITEMS = [0, None, "x", [], {}, False, "y", 1]
_PATHS = {}


def source(n):
    """A compiled query with n matches, and its list."""
    if n not in _PATHS:
        doc = ITEMS[: n - 1] if n > 1 else ITEMS[:n]
        text = "$[*]" if n < 2 else "$[*,0]"
        path = jsonpath.compile(text)
        full = list(path.finditer(doc))
        model = [key(m) for m in full]
        for m in full:
            PTR[key(m)] = str(m.pointer())
        if len(model) != n:
            raise Violation(f"{text} has {len(model)} matches", document=doc)
        _PATHS[n] = (path, doc, model, text)
    return _PATHS[n]


def chains(tier):
    top = 5 if tier == "quick" else 6
    for n in range(top + 1):
        all_ops = ops(n)
        for a in all_ops:
            yield (n, a, None)
            for b in all_ops:
                yield (n, a, b)


def run_chain(n, chain, view, target, details):
    path, doc, model, _ = source(n)
    lives = [Live(path.query(doc), list(model))]
    for i, (op, c) in enumerate(chain):
        # After a take or a tee, continue with one of the iterators it made or left.
        usable = [x for x in lives if x.query is not None]
        if not usable:
            return None
        lives += apply(usable[target % len(usable)], op, c, details)
    finish(lives, [VIEWS[(view + 3 * j) % len(VIEWS)] for j in range(len(lives))], lambda k: 0, details)
    return lives


def chain_case(case, ctx):
    n, a, b = case
    all_ops = ops(n)
    if b is None:
        tails = [[a]]
    else:
        tails = [[a, b]] + [[a, b, c] for c in all_ops]
    split = a[0] in ("take", "tee") or (b and b[0] in ("take", "tee"))
    for k, chain in enumerate(tails):
        views = range(len(VIEWS)) if len(chain) < 3 else (0, 1 + k % 7)
        for view in views:
            for target in (0, 1) if split else (0,):
                details = {
                    "query": source(n)[3], "document": repr(source(n)[1]),
                    "chain": " ".join(f"{op}({'' if c is None else c})" for op, c in chain),
                    "applied to": "the original" if target == 0 else "the iterator split off",
                }
                lives = run_chain(n, chain, view, target, details)
                ctx.evals += 1
                if lives and any(x.changed > 1 and x.model for x in lives):
                    ctx.nontrivial(n, chain)


# -- random long chains ----------------------------------------------------------------

def random_chain(src, ctx):
    PTR.clear()
    _PATHS.clear()
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool, depth=3)
    k = src.draw(5)
    if k < 2:
        text = "$..*" if k else "$.*"
    elif k < 4:
        g = qgen.Gen(src, doc, pool, filters=src.bool(), max_segs=2)
        text = qgen.Render(src).query(g.query())
    else:
        text = src.choice(["$", "$", "$ | $", "$.* | $", "$..* | $.*", "$.* & $..*", "$[::-1]", "$[0, 0, *, 0]", "$..[0, 1]", "$[*, 0:2]"])
    arg = jsongen.as_arg(doc)
    if isinstance(arg, str):
        raise Discard
    details = {"query": text, "document": jsongen.short(doc)}
    path = call(jsonpath.compile, text, what="compile", details=details)
    full = call(lambda: list(path.finditer(arg)), what="finditer", details=details)
    model = [key(m) for m in full]
    try:
        for m in full:
            PTR[key(m)] = str(m.pointer())
    except Exception as err:
        raise Discard from err
    keep = list(full)  # keeps every value alive: identities stay distinct
    n = len(model)
    q = jsonpath.query(text, arg) if src.bool() else path.query(arg)
    lives = [Live(q, list(model))]
    chain = []
    for _ in range(src.count(1, 14, 5, 6)):
        usable = [i for i, x in enumerate(lives) if x.query is not None]
        if not usable:
            break
        i = usable[src.draw(len(usable))]
        live = lives[i]
        op = src.choice(LIMIT + DROP + DROP + TAIL + ("take", "take", "tee") + ONE)
        if op in ONE:
            c = None
        elif op == "tee":
            c = src.choice([None, 1, 2, 3, 0, -1]) if len(lives) < 12 else 1
        else:
            m = len(live.model)
            j = src.draw(12)
            if j == 0:
                c = -1 - src.draw(3)
            elif j == 1:
                c = src.choice([n + 1, m + 2, 10**6, 2**31, 2**62])
            else:
                # Mostly leave something: limits near the top, drops near zero.
                c = src.int(0, m + 1) if src.bool() else (src.int(0, 2) if op in DROP or op == "take" else max(0, m - src.int(0, 2)))
        chain.append((i, op, c))
        details["chain"] = " ".join(f"q{i}.{op}({'' if c is None else c})" for i, op, c in chain)
        lives += apply(live, op, c, details)
    views = [src.choice(VIEWS) if src.bool() else "iter" for _ in lives]
    details["views"] = " ".join(views)
    finish(lives, views, lambda k: src.draw(k), details)
    ctx.label(f"length {min(n, 8)}{'+' if n >= 8 else ''}")
    for _, op, _ in chain:
        ctx.label(op)
    if any(x.changed > 1 and x.model for x in lives):
        ctx.nontrivial(n, chain)
        ctx.sample({"query": text, "matches": n, "chain": details["chain"]})
    del keep


# -- many matches -------------------------------------------------------------------

MANY = (1030, 33000)
MANY_OPS = [op for op in (*LIMIT[:1], *DROP[:1], *TAIL[:1], "take")]


def many_cases(tier):
    for n in MANY:
        counts = [0, 1, n // 2, n - 1, n, n + 1]
        firsts = [(op, c) for op in MANY_OPS for c in counts] + [("tee", 3), ("first_one", None), ("limit", -1)]
        for a in firsts:
            yield (n, (a,))
        for a in firsts:
            for op in MANY_OPS:
                for c in (3, n - 2) if n < 2000 or tier != "quick" else (n - 2,):
                    yield (n, (a, (op, c)))


_MANY = {}


def many_case(case, ctx):
    """Long match sequences: no operation has a limit of its own."""
    n, chain = case
    doc = list(range(n))
    path = jsonpath.compile("$.*")
    model = [key(m) for m in path.finditer(doc)]
    if len(model) != n:
        raise Violation(f"$.* has {len(model)} matches in an array of {n}")
    for i, x in enumerate(model):
        PTR[x] = f"/{i}"
    k = sum(map(ord, repr(chain)))
    views = ("iter", "values", "locations", "items", "pointers", "last_one") if len(chain) < 2 else (VIEWS[k % 6],)
    for j, view in enumerate(views):
        details = {"query": "$.*", "document": f"list(range({n}))", "chain": " ".join(f"{op}({'' if c is None else c})" for op, c in chain), "view": view}
        lives = [Live(path.query(doc), list(model))]
        for i, (op, c) in enumerate(chain):
            usable = [x for x in lives if x.query is not None]
            lives += apply(usable[(j + k + i) % len(usable)], op, c, details)
        finish(lives, [VIEWS[(VIEWS.index(view) + 5 * i) % 6] for i in range(len(lives))], lambda m: 0, details)
        ctx.evals += 1
        if any(x.changed and x.model for x in lives):
            ctx.nontrivial(n, chain, view)
    PTR.clear()


PROPS = [
    Enum("many matches", many_cases, many_case),
    Enum("short chains", chains, chain_case),
    Prop("long chains", random_chain, quick=200000, thorough=1500000),
]
