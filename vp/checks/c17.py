"""C17: renaming the environment's identifier tokens never changes what a query means."""

from __future__ import annotations

import asyncio
import itertools
import re

from .. import jsongen, qgen
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPathEnvironment, describe, meter, metered_env
from ..qgen import DEFAULT_TOKENS

BIG_INT_NAMES = True
RULE = (
    "assignments of distinct spellings of 1-3 characters (punctuation, other symbols, words; pairs where one is a "
    "prefix of another are preferred) to some or all of the eight identifiers x standard and extended queries, "
    "compound ones and rootless ones included x documents and filter contexts. Values, locations and errors must be "
    "those of the default spellings in a default environment, through every entry point, and the string form must "
    "recompile in that environment to an equivalent query. Exhaustive: every spelling for every identifier, every "
    "prefix-related pair for every pair of identifiers, every permutation of default spellings of three identifiers. "
    "Non-trivial: a respelled identifier occurs in a query that has a match; distinct by text."
)

ASSUMPTIONS = [
    "non-overlapping is read as: spellings do not contain operator characters of the grammar, and text in which a "
    "spelling, read longest first, would run into its neighbour is not generated",
    "spellings that are words stay words: they are set apart from neighbouring letters and digits, and are not used "
    "right after a dot, where every word is a member name",
]

ROLES = list(DEFAULT_TOKENS)
ATTR = {
    "root": "root_token", "self": "self_token", "key": "key_token", "context": "filter_context_token",
    "keys": "keys_selector_token", "fake": "fake_root_token", "union": "union_token", "inter": "intersection_token",
}
# Stand-ins while rendering, from the last private use area.
MARK = {r: chr(0x10F000 + i) for i, r in enumerate(ROLES)}
UNMARK = {v: k for k, v in MARK.items()}
MARKS = re.compile("[" + "".join(MARK.values()) + "]")

PUNCT = list("$@#_~^|&%;{}`\\")
SYMBOLS = ["§", "→", "µ", "€", "😀"]
WORDS = ["root", "cur", "K", "ctx", "u", "n", "me", "v1", "x_y", "ro", "k", "our"]
NAMECHAR = re.compile("[\u0080-\U0010ffffA-Za-z0-9_-]")
WORDY = re.compile("[\u0080-\U0010ffffA-Za-z_][\u0080-\U0010ffffA-Za-z0-9_-]*")
OPERATORS = ["||", "&&", "=~", "<>", "..", "==", "!=", "<=", ">="]

DEFAULT = {c: metered_env(filter_caching=c) for c in (True, False)}
_ENVS = {}


def make_env(tokens, **kw):
    key = (*tokens.values(), *sorted(kw.items()))
    env = _ENVS.get(key)
    if env is None:
        if len(_ENVS) > 300:
            _ENVS.clear()
        cls = type("Env", (JSONPathEnvironment,), {ATTR[r]: t for r, t in tokens.items()})
        env = _ENVS[key] = cls(**kw)
    return env


def overlapping(t):
    return "||" in t or "&&" in t or "\\" == t[-1:] == t[:-1]


def spelling(src, taken):
    k = src.draw(12)
    if k < 5:
        t = src.choice(PUNCT)
    elif k < 9:
        base = src.choice(taken) if taken and src.bool(2, 3) else src.choice(PUNCT)
        t = (base + "".join(src.choice(PUNCT) for _ in range(src.int(1, 4) if src.bool(1, 3) else src.int(1, 2))))[:8]
        if src.bool(1, 3) and len(base) > 1:
            t = base[: src.int(1, len(base) - 1)]
    elif k < 11:
        t = src.choice(SYMBOLS) if src.bool() else src.choice(PUNCT + SYMBOLS) + src.choice(SYMBOLS)
    else:
        t = src.choice(WORDS)
    return t


def assignment(src):
    """Spellings of the eight identifiers, all different."""
    if src.bool(1, 5):
        roles = [src.choice(ROLES)]
    elif src.bool(1, 3):
        roles = [r for r in ROLES if src.bool()] or [src.choice(ROLES)]
    else:
        roles = ROLES
    if src.bool(1, 8):
        # permuted default spellings
        order = list(ROLES)
        for i in range(len(order) - 1, 0, -1):
            j = src.int(0, i)
            order[i], order[j] = order[j], order[i]
        return {r: DEFAULT_TOKENS[o] for r, o in zip(ROLES, order)}
    tokens = {r: t for r, t in DEFAULT_TOKENS.items() if r not in roles}
    for r in roles:
        for _ in range(6):
            t = spelling(src, list(tokens.values()))
            if t not in tokens.values() and not overlapping(t):
                break
        else:
            t = next(x for x in PUNCT + SYMBOLS + WORDS if x not in tokens.values())
        tokens[r] = t
    return {r: tokens[r] for r in ROLES}


def spell(marked, tokens):
    """Text with the spellings in place, or None if they run into their neighbours."""
    if tokens is DEFAULT_TOKENS:
        return MARKS.sub(lambda m: DEFAULT_TOKENS[UNMARK[m.group()]], marked)
    out = []
    spans = []
    pos = 0
    for part in re.split(f"({MARKS.pattern})", marked):
        if part in UNMARK:
            part = tokens[UNMARK[part]]
            spans.append((pos, pos + len(part)))
        out.append(part)
        pos += len(part)
    text = "".join(out)
    symbols = [*tokens.values(), *OPERATORS]
    for s, e in spans:
        t = text[s:e]
        if WORDY.fullmatch(t):
            if s and (NAMECHAR.match(text[s - 1]) or text[s - 1] == "."):
                return None
            if e < len(text) and (NAMECHAR.match(text[e]) or text[e] == "("):
                return None
        elif NAMECHAR.match(t) and s and (NAMECHAR.match(text[s - 1]) or text[s - 1] == "."):
            return None
        for sym in symbols:
            n = len(sym)
            if n > len(t) and text.startswith(sym, s):
                return None
            for k in range(1, n):
                if s - k >= 0 and (s - k, s - k + n) not in spans and text.startswith(sym, s - k):
                    return None
    return text




class R(qgen.Render):
    """Renders with stand-ins for the identifiers, choosing bare names the spellings allow."""

    def __init__(self, src, tokens, **kw):
        super().__init__(src, tokens=MARK, **kw)
        self.spellings = set(tokens.values())

    def clash(self, name):
        return False

    def bare_ok(self, name):
        return (
            self.bare
            and qgen.RE_SHORTHAND.fullmatch(name) is not None
            and name not in qgen.RESERVED
            and name not in self.spellings
            and name not in DEFAULT_TOKENS.values()
        )

    def query(self, q, singular=False, top=False):
        bare = self.bare
        if top and bare and q[2]:
            sel = q[2][0][1][0]
            if sel[0] == "n" and not self.bare_ok(sel[1]):
                self.bare = False
        try:
            return super().query(q, singular=singular, top=top)
        finally:
            self.bare = bare


# -- judging -------------------------------------------------------------------

def outcome(fn, keys="~"):
    """Matches or error; locations of member names are spelled with the keys selector's token."""
    try:
        return ("ok", [(m.parts, m.obj) for m in fn()], keys)
    except Discard:
        raise
    except Exception as err:
        return ("error", type(err).__name__, str(err))


def agree(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "error":
        return a[1] == b[1]
    return len(a[1]) == len(b[1]) and all(
        located(p, q, a[2], b[2]) and (x is y or jsongen.same_value(x, y)) for (p, x), (q, y) in zip(a[1], b[1])
    )


def located(p, q, k1, k2):
    if p == q:
        return True
    return (
        len(p) == len(q) and p[:-1] == q[:-1] and isinstance(p[-1], str) and isinstance(q[-1], str)
        and p[-1].startswith(k1) and q[-1].startswith(k2) and p[-1][len(k1):] == q[-1][len(k2):]
    )


def show(out):
    return repr(out[1:])[:1500]


async def _async(env, text, doc, arg):
    return [m async for m in await env.finditer_async(text, doc, **arg)]


def check(env, tokens, default_text, text, doc, context, ctx, route=0, limit=4000):
    """Compare `text` in `env` with `default_text` in a default environment."""
    d = {
        "tokens": {k: v for k, v in tokens.items() if v != DEFAULT_TOKENS[k]}, "default_query": default_text,
        "query": text, "document": jsongen.short(doc), "filter_context": repr(context)[:1000],
    }
    arg = {} if context is None else {"filter_context": context}
    keys = tokens["keys"]
    try:
        base = DEFAULT[env.filter_caching].compile(default_text)
    except Exception as err:
        base = None
        base_err = describe(err)
    try:
        p = env.compile(text)
    except Exception as err:
        if base is None:
            ctx.label("refused by both")
            return False
        raise Violation(f"the respelled query is refused: {describe(err)}", **d) from err
    if base is None:
        raise Violation(f"only the default spelling is refused: {base_err}", **d)
    want = outcome(lambda: meter(base, doc, arg, limit))
    if route == 0:
        got = outcome(lambda: p.finditer(doc, **arg), keys)
    elif route == 1:
        got = outcome(lambda: env.finditer(text, doc, **arg), keys)
    elif route == 2:
        got = outcome(lambda: env.query(text, doc, **arg), keys)
    elif route == 3:
        got = outcome(lambda: asyncio.run(_async(env, text, doc, arg)), keys)
    elif route == 4:
        got = outcome(lambda: [m for m in [env.match(text, doc, **arg)] if m], keys)
        if want[0] == "ok":
            want = ("ok", want[1][:1], "~")
        elif got[0] == "ok":
            got = want  # the error came after the first match
    else:
        got = outcome(lambda: p.finditer(doc, **arg), keys)
        try:
            values = env.findall(text, doc, **arg)
            if got[0] != "ok" or not agree(("ok", [((), v) for v in values], ""), ("ok", [((), v) for _, v in got[1]], "")):
                raise Violation("findall() and finditer() disagree", findall=repr(values)[:1000], finditer=show(got), **d)
        except Violation:
            raise
        except Exception as err:
            got = ("error", type(err).__name__, str(err))
    if not agree(want, got):
        raise Violation("the respelled query is a different query", default_result=show(want), result=show(got), **d)
    s = str(p)
    d["string_form"] = s
    try:
        p2 = env.compile(s)
    except Exception as err:
        raise Violation(f"the string form does not compile in its environment: {describe(err)}", **d) from err
    got = outcome(lambda: p2.finditer(doc, **arg), keys)
    full = want if route != 4 else outcome(lambda: meter(base, doc, arg, limit))
    if not agree(full, got):
        raise Violation("the string form is a different query", default_result=show(full), result=show(got), **d)
    if str(p2) != s:
        raise Violation("the string form of the string form differs", second=str(p2), **d)
    return want[0] == "ok" and bool(want[1])


def case(src, ctx):
    """Several queries for one assignment, since environments are costly to make."""
    tokens = assignment(src)
    env = make_env(tokens, filter_caching=src.bool(3, 4))
    if any(a != b and b.startswith(a) for a in tokens.values() for b in tokens.values()):
        ctx.label("prefix-related")
    if any(len(t) > 1 for t in tokens.values()):
        ctx.label("multi-character")
    n = src.count(1, 24, 23, 24)
    bad = 0
    for _ in range(n):
        try:
            one(src, ctx, tokens, env)
            ctx.evals += 1
        except Discard:
            bad += 1
    if bad == n:
        raise Discard


def one(src, ctx, tokens, env):
    pool = jsongen.gen_pool(src)
    for i, k in enumerate(pool):
        # names that look like the spellings
        if src.bool(1, 5):
            pool[i] = src.choice(list(tokens.values())) + src.choice(["", "", "a", "_", "b"])
    doc = jsongen.gen_doc(src, pool)
    context = {src.choice(pool): jsongen.gen_value(src, pool, 2, [6]) for _ in range(src.int(0, 3))} if src.bool(2, 3) else None
    r = R(src, tokens, ext=True, bare=src.bool())
    n = 1 if src.bool(2, 3) else src.int(2, 3)
    qs = []
    for _ in range(n):
        g = qgen.Gen(src, doc, pool, filters=src.bool(5, 6), ext=True, extfuncs=src.bool(), context=context, max_segs=3, fdepth=2)
        qs.append(g.query("^" if src.bool(1, 5) else "$"))
    marked = r.query(qs[0], top=True)
    for q in qs[1:]:
        marked += r.pick([" ", "", "\n"]) + MARK[src.choice(["union", "inter"])] + r.pick([" ", ""]) + r.query(q, top=True)
    text = spell(marked, tokens)
    if text is None:
        # Set the identifiers apart, where a blank changes nothing.
        wide = re.sub(f"(?<![.])({MARK['union']}|{MARK['inter']})", " \\1 ", marked)
        text = spell(wide, tokens)
        if text is None:
            raise Discard
        marked = wide
    default_text = spell(marked, DEFAULT_TOKENS)
    used = {UNMARK[m] for m in MARKS.findall(marked)}
    for u in used:
        ctx.label("uses " + u)
    route = src.weighted([(6, 0), (2, 1), (2, 2), (1, 3), (1, 4), (3, 5)])
    if check(env, tokens, default_text, text, doc, context, ctx, route):
        if any(tokens[u] != DEFAULT_TOKENS[u] for u in used):
            ctx.nontrivial(text)
            ctx.sample({"query": text, "default_query": default_text, "tokens": tokens})


# -- exhaustive ----------------------------------------------------------------

DOC = {
    "a": {"b": 1, "c": [1, 2, {"a": 3, "b": "x"}]},
    "b": [0, 1, {"a": 1}, {"a": 2, "b": 1}, "b", None, True],
    "x": "a",
    "_": {"a": {"k": "b"}},
    "K": 7,
}
CTX = {"k": "b", "n": 1, "l": [1, "a", "b"], "o": {"a": {"k": "x"}}}

# {r}oot {s}elf {k}ey {c}ontext {K}eys {f}ake {u}nion {i}ntersection
TEMPLATES = [
    "{r}", "{r}.a.b", "{r}['b'][0]", "{r}..a", "{f}", "{f}[0].a", "{f}..b", "{r}[{K}]", "{r}.a[{K}, 'b']", "{r}..[{K}]",
    "{r}.b[?{s}.a]", "{r}.b[?{s}.a == {r}.a.b]", "{r}.*[?{k} == 'b']", "{r}.b[?{k} > 1]", "{r}[?{k} == {c}.k]",
    "{r}.b[?{s} == {c}.n]", "{r}.b[?{s} in {c}.l]", "{r}[?count({s}.*) > count({c}.*) && !{s}.q]", "{r}[?count({s}[{K}]) > 1]",
    "{r}.a {u} {r}.b", "{r}.* {i} {r}.b {u} {r}.x", "{f}[?{s}.a]", "{r}[?{f}[0].a]", "{r}[?({k} == 'a') || {s} == {r}.x]",
    "{r}[?{s}[?{s} == 1 || {k} == {c}.k]]", "{r}.b[?!{s}.a && !({k} == 0)]", "a.b {u} b[0] {u} {f}[0].x",
    "{r}[?value({r}.x) == {k}]", "{r}[?match({k}, '[ab]')]", "{r}..[?{s}[{K}]]", "{r}[?length({k}) == 1 && length({s}) > {c}.n]",
    "{r}[?{c}.o[?{s}.k]]", "{r}.b[?{r}.b[{k}]]" if False else "{r}.b[?{s}.b == {r}.b[3]['b']]", "{r}[?{s}..a {x}]" if False else "{r}[?{s}..a]",
    "{r}['a', {K}][?{s}]" , "{r}[?'a' in {s}]", "{r}[?{s} contains {c}['k']]", "{r}[?{k} =~ /[ab]/]", "{r}[?undefined == {s}.a]",
    "{r}[?{r} == {r} && {c}]", "{r}[?{s}[?{s}[{K}] && {r}.x == {c}.k]]", "{f} {i} {f}", "{f}.{K}", "{f}[0].{K}", "{r}..{K}", "{r}.*.{K}",
]
LETTER = {"r": "root", "s": "self", "k": "key", "c": "context", "K": "keys", "f": "fake", "u": "union", "i": "inter"}
TEMPLATES = [re.sub(r"\{(.)\}", lambda m: MARK[LETTER[m.group(1)]], t) for t in TEMPLATES]
PAIRS = [("%", "%%"), ("%", "%;"), (";", ";%;"), ("%%", "%%%"), ("$", "$$"), ("{", "{}"), ("@", "@$"), ("|", "|;"), ("&", "&;"), ("#", "#@"), ("~", "~~"), ("_", "__"), ("ab", "abc"), ("^", "^^^"), ("\\", "\\d"), ("-$", "-$$"), ("§", "§§"), ("µ", "µ$"), ("%%%", "%%%;"), ("@_%~;", "@_%~;#")]


def enum_cases(tier):
    for role in ROLES:
        for t in [*PUNCT, *SYMBOLS, *WORDS, *(a + b for a, b in itertools.product("$@_%|", repeat=2)), "$@#", "%^&", "_a_", "~~~"]:
            if not overlapping(t):
                yield [(role, t)]
    for r1, r2 in itertools.permutations(ROLES, 2):
        for a, b in PAIRS:
            yield [(r1, a), (r2, b)]
    for trio in itertools.combinations(ROLES, 3):
        for perm in itertools.permutations(trio):
            yield [(r, DEFAULT_TOKENS[p]) for r, p in zip(trio, perm)]
        yield [(trio[0], ";"), (trio[1], ";;"), (trio[2], ";;;")]
        yield [(trio[0], ";;;;"), (trio[1], ";;;;;"), (trio[2], ";;;;;;")]
        yield [(trio[2], "%@_"), (trio[1], "%@_%"), (trio[0], "%@_%;#;@;%")]
        yield [(trio[2], "%"), (trio[0], "%%"), (trio[1], "%%%")]
        yield [(trio[1], "@%"), (trio[2], "@%@"), (trio[0], "%@")]


def enum_case(c, ctx):
    tokens = {**DEFAULT_TOKENS, **dict(c)}
    if len(set(tokens.values())) < 8:
        # the displaced identifier takes the free spelling
        given = dict(c)
        free = [t for t in DEFAULT_TOKENS.values() if t not in given.values()]
        for r in ROLES:
            if r not in given and tokens[r] in given.values():
                tokens[r] = free.pop() if free else "!!"
        seen = set()
        for r in sorted(ROLES, key=lambda x: x not in given):
            if tokens[r] in seen:
                tokens[r] = next(t for t in PUNCT if t not in tokens.values())
            seen.add(tokens[r])
    env = make_env(tokens)
    for i, m in enumerate(TEMPLATES):
        text = spell(m, tokens)
        if text is None:
            ctx.label("ambiguous")
            continue
        ctx.evals += 1
        if check(env, tokens, spell(m, DEFAULT_TOKENS), text, DOC, CTX, ctx, route=(0, 5)[i % 2]):
            if any(tokens[UNMARK[x]] != DEFAULT_TOKENS[UNMARK[x]] for x in MARKS.findall(m)):
                ctx.nontrivial(text)


PROPS = [
    Prop("assignments", case, quick=4000),
    Enum("every spelling, pair and permutation", enum_cases, enum_case),
]
