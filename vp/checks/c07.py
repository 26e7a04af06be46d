"""C07: the compile-time gate - valid queries compile, ill-typed or out-of-range ones don't."""

from __future__ import annotations

import asyncio
import itertools
from collections.abc import Mapping, Sequence

from .. import jsongen, qgen
from ..engine import Enum, Prop, Violation
from ..lib import ExpressionType, FilterFunction, JSONPathEnvironment, JSONPathError, describe, jsonpath

RULE = (
    "random queries of the RFC 9535 grammar whose filters are freely typed (any literal, singular or "
    "non-singular query, or call of any function with any number and kind of arguments, in any operand, "
    "test or argument position, under negation, conjunction, disjunction, parentheses and nested filters), "
    "with indices and slice bounds at, just inside and just outside the configured range, indices with "
    "leading zeros, and empty or comma-terminated bracket lists planted at any depth, rendered in every "
    "spelling; an independent implementation of the RFC typing rules decides whether the query must compile "
    "or must be refused with a JSONPath error, by every entry point and before the document is looked at. "
    "Exhaustive: every call of the five functions with up to two arguments from a set of every argument kind "
    "(three from a smaller set) in every test and operand position of a list of filter shapes. Non-trivial: "
    "a query with a filter, or one that must be refused; distinct by query text."
)

ASSUMPTIONS = [
    "the standard functions are registered as the library registers them; others are declared through the "
    "documented FilterFunction class",
    "a parenthesised operand of a comparison, a negated literal zero index and slice bounds with leading "
    "zeros are not judged",
]

MAXI = 2**53 - 1


# -- environments ----------------------------------------------------------------------------

class Narrow(JSONPathEnvironment):
    max_int_index = 10
    min_int_index = -5


class Tiny(JSONPathEnvironment):
    max_int_index = 1
    min_int_index = 0


class NegativeOnly(JSONPathEnvironment):
    max_int_index = 3
    min_int_index = -(2**31)


class Wide(JSONPathEnvironment):
    max_int_index = 2**64
    min_int_index = -(2**64)


def instance_limits():
    env = JSONPathEnvironment()
    env.max_int_index = 7
    env.min_int_index = -7
    return env


class Shared:
    """The module-level functions, seen as an environment."""

    max_int_index, min_int_index = MAXI, -MAXI

    def __getattr__(self, name):
        return getattr(jsonpath, name)


ENVS = [
    Shared(), JSONPathEnvironment(well_typed=True), JSONPathEnvironment(filter_caching=False),
    JSONPathEnvironment(unicode_escape=True, well_typed=True), Narrow(), Tiny(), NegativeOnly(), Wide(),
    instance_limits(),
]


# -- documents that must not be looked at ------------------------------------------------------

class TrapMapping(Mapping):
    def __init__(self):
        self.touched = False

    def __getitem__(self, key):
        self.touched = True
        raise KeyError(key)

    def __iter__(self):
        self.touched = True
        return iter(())

    def __len__(self):
        self.touched = True
        return 0


class TrapSequence(Sequence):
    def __init__(self):
        self.touched = False

    def __getitem__(self, key):
        self.touched = True
        raise IndexError(key)

    def __len__(self):
        self.touched = True
        return 0


# -- the typing rules --------------------------------------------------------------------------

VALUE, LOGICAL, NODES = "ValueType", "LogicalType", "NodesType"
SIGNATURES = {
    "length": ((VALUE,), VALUE),
    "count": ((NODES,), VALUE),
    "match": ((VALUE, VALUE), LOGICAL),
    "search": ((VALUE, VALUE), LOGICAL),
    "value": ((NODES,), VALUE),
}


# Functions with every kind of parameter and result, named in every way the grammar allows.
EXTRA = {
    "f": ((LOGICAL,), LOGICAL), "x1": ((NODES,), NODES), "zero": ((), VALUE), "yes": ((), LOGICAL), "all_": ((), NODES),
    "val_to_nodes": ((VALUE,), NODES), "l2v": ((LOGICAL,), VALUE), "nodes_2_logical": ((NODES,), LOGICAL),
    "logical_to_nodes": ((LOGICAL,), NODES), "v": ((VALUE,), VALUE), "lnv": ((LOGICAL, NODES, VALUE), LOGICAL),
    "four": ((VALUE, LOGICAL, VALUE, NODES), VALUE), "nn": ((NODES, NODES), NODES), "ll": ((LOGICAL, LOGICAL), LOGICAL),
    "order": ((VALUE,), LOGICAL), "android": ((NODES,), VALUE), "not_": ((LOGICAL,), LOGICAL), "in_it": ((VALUE, NODES), LOGICAL),
    "nullable": ((VALUE,), LOGICAL), "true1": ((LOGICAL,), VALUE), "nilly": ((NODES,), LOGICAL), "contains_": ((VALUE, VALUE), LOGICAL),
    "e10": ((VALUE,), VALUE), "a_very_long_function_name_with_0123456789": ((LOGICAL, VALUE), NODES),
}


def declare(args, result):
    kind = {VALUE: ExpressionType.VALUE, LOGICAL: ExpressionType.LOGICAL, NODES: ExpressionType.NODES}

    class Declared(FilterFunction):
        arg_types = [kind[a] for a in args]
        return_type = kind[result]

        def __call__(self, *values):
            return values[0] if values else None

    return Declared()


def declaring(cls=JSONPathEnvironment):
    env = cls()
    for name, (args, result) in EXTRA.items():
        env.function_extensions[name] = declare(args, result)
    env.signatures = {**SIGNATURES, **EXTRA}
    return env


class Redeclared(JSONPathEnvironment):
    """The standard names with other types."""

    def setup_function_extensions(self):
        super().setup_function_extensions()
        self.signatures = dict(SIGNATURES)
        for name, sig in {
            "length": ((NODES,), NODES), "count": ((VALUE, VALUE), LOGICAL), "match": ((LOGICAL,), VALUE), "value": ((LOGICAL,), LOGICAL),
        }.items():
            self.function_extensions[name] = declare(*sig)
            self.signatures[name] = sig


def signatures(env):
    return getattr(env, "signatures", SIGNATURES) if not isinstance(env, Shared) else SIGNATURES


ENVS += [declaring(), declaring(Narrow), Redeclared()]


def singular(q):
    return all(
        kind == "c" and len(sels) == 1 and sels[0][0] in ("n", "i", "badi") for kind, sels, *_ in q[2]
    )


class Rules:
    """Collects the rules a query breaks."""

    def __init__(self, env):
        self.env = env
        self.broken = []

    def bad(self, why):
        self.broken.append(why)

    def number(self, n, what):
        if n is not None and not self.env.min_int_index <= n <= self.env.max_int_index:
            self.bad(f"{what} out of range")

    def query(self, q):
        for seg in q[2]:
            for sel in seg[1]:
                if sel[0] == "i":
                    self.number(sel[1], "index")
                elif sel[0] == "s":
                    for n in sel[1:]:
                        self.number(n, "slice bound")
                elif sel[0] == "badi":
                    self.bad("leading zero")
                elif sel[0] == "f":
                    self.logical(sel[1])
            if len(seg) > 2:
                self.bad(seg[2])

    def logical(self, e):
        k = e[0]
        if k in ("or", "and"):
            self.logical(e[1])
            self.logical(e[2])
        elif k in ("not", "paren"):
            self.logical(e[1])
        elif k == "cmp":
            self.operand(e[2])
            self.operand(e[3])
        elif k == "test":
            self.test(e[1])
        else:
            raise AssertionError(e)

    def test(self, x):
        if x[0] in ("lit", "num"):
            self.bad("uncompared literal")
        elif x[0] == "q":
            self.query(x)
        else:
            if self.fn(x) == VALUE:
                self.bad("value-typed test")

    def operand(self, x):
        if x[0] == "q":
            self.query(x)
            if not singular(x):
                self.bad("non-singular operand")
        elif x[0] == "fn":
            if self.fn(x) not in (VALUE, None):
                self.bad("logical- or nodes-typed operand")

    def fn(self, x):
        """Check a call; its result type (None if unknown)."""
        sig = signatures(self.env).get(x[1])
        if sig is None:
            self.bad("unknown function")
            for a in x[2]:
                self.arg(a, None)
            return None
        want, result = sig
        if len(x[2]) != len(want):
            self.bad("wrong number of arguments")
        for i, a in enumerate(x[2]):
            self.arg(a, want[i] if i < len(want) else None)
        return result

    def arg(self, a, want):
        k = a[0]
        if k in ("lit", "num"):
            ok = want in (VALUE, None)
        elif k == "q":
            self.query(a)
            ok = want in (NODES, LOGICAL, None) or want == VALUE and singular(a)
        elif k == "fn":
            got = self.fn(a)
            ok = got is None or want in (got, None) or (want, got) == (LOGICAL, NODES)
        else:
            self.logical(a)
            ok = want in (LOGICAL, None)
        if not ok:
            self.bad("wrong kind of argument")


# -- rendering -------------------------------------------------------------------------------

class Spell(qgen.Render):
    def expr(self, e, prec):
        k = e[0]
        if k == "test":
            if e[1][0] == "q":
                return self.query(e[1])
            return self.comparable(e[1])
        if k == "paren":
            return self.paren(e[1])
        if k == "not":
            if prec > 1:
                return self.paren(e)
            body = self.expr(e[1], 2) if e[1][0] == "test" else self.paren(e[1])
            return "!" + self.b() + body
        return super().expr(e, prec)

    def comparable(self, c):
        if c[0] == "num":
            return c[1]
        return super().comparable(c)

    def arg(self, a):
        if a[0] in ("test", "paren"):
            return self.expr(a, 0)
        return super().arg(a)

    def selector(self, sel):
        if sel[0] == "badi":
            return sel[1]
        return super().selector(sel)

    def segment(self, seg, singular=False):
        kind, sels = seg[0], seg[1]
        if len(seg) > 2:
            body = ("," + self.b() if seg[2] == "comma-terminated list" else "")
            inner = (self.b() + "," + self.b()).join(self.selector(s) for s in sels)
            return (".." if kind == "d" else "") + "[" + self.b() + inner + self.b() + body + "]"
        if singular and (kind != "c" or len(sels) != 1 or sels[0][0] not in ("n", "i", "badi")):
            singular = False
        return super().segment((kind, sels), singular)


# -- generation ------------------------------------------------------------------------------

NUMS = [
    "1e400", "-1e400", "1E+400", "1.5e400", "1e-400", "-0", "-0.0", "0e0", "-0E-0", "0.0e+00", "9" * 400,
    "-" + "9" * 5000, "1" + "0" * 4999, "9007199254740993", "1e16", "123456789012345678901234567890",
    "0.1e1", "1e00002", "0." + "0" * 400 + "1",
]
BADI = ["00", "01", "007", "-01", "-00", "0123", "-0010", "00000000000000000001", "09"]
BADFN = ["foo", "len", "counts", "matches", "regex", "first", "keys", "count_", "a1"]


class Wild:
    """Freely typed queries."""

    def __init__(self, src, env, pool, wild):
        self.src, self.env, self.pool = src, env, pool
        self.wild = wild  # chance out of 64 to ignore the typing rules at a choice
        self.budget = 40
        self.planted = False

    def free(self):
        return self.src.bool(self.wild, 64) if self.wild else False

    def num(self, lo_ok=True):
        s, env = self.src, self.env
        k = s.draw(10)
        if k < 6:
            n = s.int(0, 6) - 3
            return max(min(n, env.max_int_index), env.min_int_index)
        n = s.choice([env.max_int_index, env.min_int_index, env.max_int_index - 1, env.min_int_index + 1])
        n = max(min(n, env.max_int_index), env.min_int_index)
        if self.wild and s.bool(1, 3):
            n = s.choice([
                env.max_int_index + 1, env.min_int_index - 1, env.max_int_index + 2, 2**63, -(2**63),
                10**30, -(10**30), 2**53, -(2**53), MAXI, -MAXI,
            ])
            if s.bool(1, 20):
                n = s.choice([10**4200, -(10**4200)])
        return n

    def selector(self, depth, filters=True):
        s = self.src
        self.budget -= 1
        k = s.weighted([(6, "n"), (4, "i"), (4, "s"), (2, "w"), (4 if filters and depth > 0 and self.budget > 0 else 0, "f")])
        if k == "n":
            return ("n", jsongen.gen_key(s) if s.bool(1, 5) else s.choice(self.pool))
        if k == "i":
            if self.wild and s.bool(1, 12):
                return ("badi", s.choice(BADI))
            return ("i", self.num())
        if k == "s":
            return ("s", *(self.num() if s.bool() else None for _ in range(3)))
        if k == "f":
            return ("f", self.logical(depth - 1))
        return ("w",)

    def segment(self, depth, singular=False):
        s = self.src
        if singular:
            sel = self.selector(0, filters=False)
            while sel[0] not in ("n", "i", "badi"):
                sel = ("n", s.choice(self.pool))
            return ("c", [sel])
        kind = "d" if s.bool(1, 6) else "c"
        n = 1 if not s.bool(1, 4) else s.int(2, 4)
        seg = (kind, [self.selector(depth) for _ in range(n)])
        if self.wild and s.bool(1, 40):
            if s.bool(1, 3):
                return (kind, [], "empty list")
            return (*seg, "comma-terminated list")
        return seg

    def query(self, root, depth, singular, nmax=3):
        n = self.src.count(0 if singular else 1, nmax, 2, 3)
        return ("q", root, [self.segment(depth, singular) for _ in range(n)])

    def lit(self):
        s = self.src
        k = s.draw(12)
        if k == 0:
            return ("num", s.choice(NUMS))
        return ("lit", jsongen.gen_scalar(s, self.pool))

    def root(self):
        return self.src.choice("@@@$")

    def fn(self, depth, result=None):
        """A call; of the given result type unless free."""
        s = self.src
        sigs = signatures(self.env)
        names = list(sigs)
        if result is not None and not self.free():
            fit = (LOGICAL, NODES) if result == LOGICAL else (result,)
            names = [n for n in names if sigs[n][1] in fit] or names
        name = s.choice(names)
        want = list(sigs[name][0])
        if self.wild and s.bool(1, 24):
            name = s.choice(BADFN)
        if self.free() and s.bool():
            for _ in range(s.int(1, 2)):
                if s.bool() and want:
                    want.pop()
                else:
                    want.append(s.choice([VALUE, NODES, LOGICAL]))
        return ("fn", name, [self.arg(t, depth) for t in want])

    def arg(self, want, depth):
        s = self.src
        if self.free():
            k = s.draw(6)
            if k < 2:
                return self.any(depth)
            if k == 2:
                return ("paren", self.logical(depth, 1))
            if k == 3:
                return ("not", self.logical(depth, 1))
            e = self.logical(depth, 1)
            return e[1] if e[0] == "test" else e
        if want == LOGICAL:
            e = self.logical(depth, 2)
            return e[1] if e[0] == "test" else e
        if want == NODES:
            if self.budget > 0 and s.bool(1, 4) and any(sig[1] == NODES for sig in signatures(self.env).values()):
                return self.fn(depth, NODES)
            return self.query(self.root(), depth, s.bool(1, 4))
        return self.operand(depth)

    def any(self, depth):
        k = self.src.draw(4)
        if k == 0:
            return self.lit()
        if k == 3 and self.budget > 0:
            return self.fn(depth)
        return self.query(self.root(), depth, k == 1)

    def operand(self, depth):
        s = self.src
        self.budget -= 1
        if self.free():
            return self.any(depth)
        k = s.draw(8)
        if k < 3:
            return self.lit()
        if k < 6 or self.budget <= 0:
            return self.query(self.root(), 0, True)
        return self.fn(depth, VALUE)

    def logical(self, depth, lvl=3):
        s = self.src
        self.budget -= 1
        k = s.draw(14)
        if lvl > 0 and self.budget > 0 and k >= 7:
            if k < 9:
                return ("and", self.logical(depth, lvl - 1), self.logical(depth, lvl - 1))
            if k < 11:
                return ("or", self.logical(depth, lvl - 1), self.logical(depth, lvl - 1))
            if k < 13:
                return ("not", self.logical(depth, lvl - 1))
            return ("paren", self.logical(depth, lvl - 1))
        if k % 7 < 3:
            return ("cmp", s.choice(qgen.CMP_OPS), self.operand(depth), self.operand(depth))
        if self.free():
            return ("test", self.any(depth))
        if k % 7 < 5:
            return ("test", self.query(self.root(), depth, s.bool()))
        return ("test", self.fn(depth, LOGICAL))


OPS = ["compile", "findall", "finditer", "match", "query", "findall_async", "finditer_async"]


def attempt(env, text, op, doc):
    """The exception raised by an entry point, or None."""
    try:
        if op == "compile":
            env.compile(text)
        elif op.endswith("_async"):
            asyncio.run(getattr(env, op)(text, doc))
        else:
            getattr(env, op)(text, doc)
    except Exception as err:
        return err
    return None


def judge(env, text, broken, op, doc, ctx):
    details = {
        "query": text if len(text) < 4000 else text[:2000] + "...", "entry_point": op,
        "limits": [env.min_int_index, env.max_int_index], "environment": type(env).__name__,
    }
    if not broken:
        err = attempt(env, text, "compile", None)
        if err is not None:
            raise Violation(f"a valid query was refused: {describe(err)[:500]}", **details)
        return
    err = attempt(env, text, op, doc)
    details["rules_broken"] = sorted(set(broken))
    if err is None:
        raise Violation("a query that breaks the rules was accepted", **details)
    if not isinstance(err, JSONPathError):
        raise Violation(f"refused with something other than a JSONPath error: {describe(err)[:500]}", **details)
    if doc.touched:
        raise Violation("a query that is refused looked at the document", **details)


def case(src, ctx):
    pool = jsongen.gen_pool(src)
    env = src.choice(ENVS)
    g = Wild(src, env, pool, src.choice([0, 0, 3, 3, 8, 24]))
    n = 1 if not src.bool(1, 8) else src.int(2, 3)
    qs = [g.query("$", src.choice([1, 2, 2, 3]), False, 4) for _ in range(n)]
    rules = Rules(env)
    for q in qs:
        rules.query(q)
    r = Spell(src)
    text = r.query(qs[0])
    for q in qs[1:]:
        text += src.choice([" | ", " & ", "|"]) + r.query(q)
    op = src.choice(OPS) if src.bool() else "compile"
    doc = src.choice([TrapMapping, TrapSequence])()
    judge(env, text, rules.broken, op, doc, ctx)
    for why in set(rules.broken):
        ctx.label(why)
    ctx.label("must be refused" if rules.broken else "must compile")
    ctx.label(type(env).__name__)
    if rules.broken or "?" in text:
        ctx.nontrivial(text)
        ctx.sample({"query": text[:500], "rules_broken": sorted(set(rules.broken))})


# -- exhaustive: calls in positions ----------------------------------------------------------

A = ("c", [("n", "a")])
Q = {
    "@": ("q", "@", []), "$": ("q", "$", []), "@.a": ("q", "@", [A]), "$['a']": ("q", "$", [A]),
    "@[0]": ("q", "@", [("c", [("i", 0)])]), "@['a'][-1].a": ("q", "@", [A, ("c", [("i", -1)]), A]),
    "@.*": ("q", "@", [("c", [("w",)])]), "@[*]": ("q", "@", [("c", [("w",)])]),
    "@..a": ("q", "@", [("d", [("n", "a")])]), "$..[0]": ("q", "$", [("d", [("i", 0)])]),
    "@['a','a']": ("q", "@", [("c", [("n", "a"), ("n", "a")])]),
    "@[0:1]": ("q", "@", [("c", [("s", 0, 1, None)])]), "@[:]": ("q", "@", [("c", [("s", None, None, None)])]),
    "@[?@.a]": ("q", "@", [("c", [("f", ("test", ("q", "@", [A])))])]),
    "@.a.*": ("q", "@", [A, ("c", [("w",)])]), "@.*.a": ("q", "@", [("c", [("w",)]), A]),
    "$.a[0,1]": ("q", "$", [A, ("c", [("i", 0), ("i", 1)])]),
}
LITS = {
    "1": ("lit", 1), "-1.5": ("lit", -1.5), "'a'": ("lit", "a"), '"a"': ("lit", "a"), "true": ("lit", True),
    "false": ("lit", False), "null": ("lit", None), "1e2": ("lit", 100), "0": ("lit", 0), "''": ("lit", ""),
}
T = ("test", Q["@.a"])
LOGICALS = {
    "@.a == 1": ("cmp", "==", Q["@.a"], LITS["1"]), "!@.a": ("not", T), "(@.a)": ("paren", T),
    "@.a && @.a": ("and", T, T), "@.a || 1 < 2": ("or", T, ("cmp", "<", LITS["1"], ("lit", 2))),
    "('a' == 'a')": ("paren", ("cmp", "==", LITS["'a'"], LITS["'a'"])),
}
CALLS = {
    "length(@.a)": ("fn", "length", [Q["@.a"]]), "count(@.*)": ("fn", "count", [Q["@.*"]]),
    "value(@..a)": ("fn", "value", [Q["@..a"]]), "match(@.a, 'a')": ("fn", "match", [Q["@.a"], LITS["'a'"]]),
    "search('a', $['a'])": ("fn", "search", [LITS["'a'"], Q["$['a']"]]), "foo(@.a)": ("fn", "foo", [Q["@.a"]]),
}
ATOMS = {**Q, **LITS, **CALLS}
ARGS = {**Q, **LITS, **CALLS, **LOGICALS}
FEW = {k: ARGS[k] for k in ["@.a", "@.*", "1", "'a'", "length(@.a)", "match(@.a, 'a')"]}

TESTS = [
    "$[?{x}]", "$[?!{x}]", "$[?({x})]", "$[?!({x})]", "$[?(({x}))]", "$[?{x} && @.b]", "$[?@.b && {x}]",
    "$[?{x} || @.b]", "$[?@.b || {x}]", "$[?@.b && (@.c || {x})]", "$[?@.b == 1 && {x}]", "$[?@.b == 1 || !{x}]",
    "$[?!(@.b && {x})]", "$[?@[?{x}]]", "$[?count(@[?{x}]) == 1]", "$[?@.a || @[?@.b && {x}]]",
    "$[?@.c && @.d && {x}]", "$[?@.c || @.d && {x}]", "$[?{x} && @.c || @.d]", "$[?({x}) && @.c]",
    "$[?value(@[?!{x}]) == 1]", "$[?1 == count(@..[?{x}])]", "$['a', ?{x}]", "$..[?{x}]", "$[?@.a, ?{x}]",
    "$.a[?{x}].b", "$[?{x}][?@.a]", "$[?!(!({x}))]", "$[?!@.a && !{x}]", "$[?!(@.b || !{x})]",
    "$[?match(@.a, 'b') && {x}]", "$[?{x} || match(@.a, 'b') && @.c]", "$[?(@.a == 1) && ({x})]",
    "$[?(@.a || @.b) && {x}]", "$[?$.a[?{x}].b]", "$[?@[?@[?{x}]]]", "$[? {x} ]", "$[?@.a == @.b && ({x} || @.c)]",
]
OPERANDS = [
    "$[?{x} == 1]", "$[?1 == {x}]", "$[?{x} != 'a']", "$[?@.a >= {x}]", "$[?{x} < @.b]", "$[?!({x} == 1)]",
    "$[?@.b && {x} != 'a']", "$[?(@.b || {x} <= 1)]", "$[?@[?{x} == 1]]", "$[?count(@[?1 == {x}]) > 0]",
    "$[?match(@.a, 'b') || {x} == null]", "$[?{x} == {x}]", "$[?length(@.a) > {x}]", "$[?({x} == 1) && @.a]",
    "$['a', ?{x} == true]", "$..[?false == {x}]", "$[?@.a == 1 && {x} == 1]", "$[?@.a == 1 || 2 > {x}]",
    "$[?!(@.a && !({x} == 1))]", "$[?value(@[?{x} == $.a]) == 1]", "$[?{x}==1]", "$[?1=={x}]",
    "$[?@.a && @.b || {x} >= -1]", "$[?((1 <= {x}))]",
]


def fn_cases(tier):
    yield ("atoms",)
    for f in [*SIGNATURES, "foo"]:
        yield (f, 0)
        yield (f, 3)
        for a in ARGS:
            yield (f, a)


def fn_case(c, ctx):
    if c == ("atoms",):
        items = list(ATOMS.items())
    elif c[1] in (0, 3):
        argsets = [()] if c[1] == 0 else itertools.product(FEW.items(), repeat=3)
        items = [
            (f"{c[0]}({', '.join(t for t, _ in args)})", ("fn", c[0], [x for _, x in args])) for args in argsets
        ]
    else:
        t1, x1 = c[1], ARGS[c[1]]
        items = [(f"{c[0]}({t1})", ("fn", c[0], [x1]))]
        items += [(f"{c[0]}({t1}, {t2})", ("fn", c[0], [x1, x2])) for t2, x2 in ARGS.items()]
    for env in (ENVS[0], ENVS[1]) if c == ("atoms",) else (ENVS[0],):
        for text, x in items:
            rules = Rules(env)
            rules.test(x)
            tests = rules.broken
            rules = Rules(env)
            rules.operand(x)
            operands = rules.broken
            for shapes, broken in ((TESTS, tests), (OPERANDS, operands)):
                for shape in shapes:
                    q = shape.replace("{x}", text)
                    judge(env, q, broken, "compile", TrapMapping(), ctx)
                    ctx.evals += 1
                    ctx.nontrivial(q)
            ctx.label("accepted in tests" if not tests else "refused in tests")
            ctx.label("accepted as an operand" if not operands else "refused as an operand")


# -- exhaustive: integers in positions -------------------------------------------------------

INT_SHAPES = [
    "$[{n}]", "$.a[{n}]", "$..[{n}]", "$['a', {n}]", "$[{n}, 0]", "$[?@[{n}]]", "$[?@[{n}] == 1]", "$[?1 == $[{n}]]",
    "$[?count(@[{n}]) == 1]", "$[?length(@[{n}]) == 1]", "$[?!@[{n}]]", "$[?@.a && @[{n}]]", "$[?@[?@[{n}]]]",
    "$[?match(@[{n}], 'a')]", "$[{n}:]", "$[:{n}]", "$[{n}:1]", "$[0:{n}:1]", "$[::{n}]", "$[0:1:{n}]",
    "$[ {n} : ]", "$[{n}:{n}:{n}]", "$[?@[{n}:]]", "$[?@[0,:{n}]]", "$[?count(@[::{n}]) > 0]", "$.a[?@.b[?@[:{n}]]]",
    "$[0, 1:{n}]", "$..[{n}:]", "$[ {n} ]", "$[0][{n}]", "$ | $[{n}]", "$.a & $..[{n}]", "$.* | $[:{n}]",
]


def int_cases(tier):
    for i, env in enumerate(ENVS):
        if isinstance(env, Redeclared):
            continue
        for shape in INT_SHAPES:
            yield (i, shape)


def int_case(c, ctx):
    env, shape = ENVS[c[0]], c[1]
    lo, hi = env.min_int_index, env.max_int_index
    one_ok = lo <= 1 <= hi
    for n in {
        lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, lo - 2, hi + 2, 0, 1, -1, 10 * hi, 10 * lo, MAXI, -MAXI, 2**53, -(2**53),
        2**63, -(2**63), 2**64, 2**64 + 1, 10**400, -(10**4200),
    }:
        broken = [] if lo <= n <= hi and one_ok else ["integer out of range"]
        q = shape.replace("{n}", str(n))
        judge(env, q, broken, "findall", TrapSequence(), ctx)
        ctx.evals += 1
        ctx.nontrivial(c[0], q)
    for digits in (4300, 4301, 5000, 20000):
        for sign in ("", "-"):
            q = shape.replace("{n}", sign + "9" * digits)
            judge(env, q, ["integer out of range"], "compile", TrapMapping(), ctx)
            ctx.evals += 1
    if ":" in shape:
        return
    for bad in BADI:
        judge(env, shape.replace("{n}", bad), ["leading zero"], "findall", TrapMapping(), ctx)
        ctx.evals += 1
        ctx.nontrivial(c[0], shape.replace("{n}", bad))


# -- exhaustive: bracket lists ---------------------------------------------------------------

LIST_SHAPES = [
    "${x}", "$.a{x}", "$..{x}", "${x}.b", "$[0]{x}[1]", "$[?@{x}]", "$[?!@{x}]", "$[?@.a && $.b{x}]", "$[?count(@{x}) == 1]",
    "$[?@{x} == 1]", "$[?value(@.a{x}.b) == 1]", "$[?@[?@{x}]]", "$[?length(@{x}) == 1]", "$ | $.a{x}", "${x} & $",
    "$[?match(@{x}, 'a')]", "$['a', ?@{x}]", "$.a | $[?@{x}]",
]
ITEMS = ["'a'", '"a"', "0", "-1", "*", ":", "1:2", "::2", "?@.a", "?@.a == 1", "'a', 0", "0, 1, 2", "*, *", "?@.a, ?@.b"]


def list_cases(tier):
    for shape in LIST_SHAPES:
        yield (shape,)


def list_case(c, ctx):
    env = ENVS[1]
    for blank in ("", " ", "\n", "\t\r"):
        judge(env, c[0].replace("{x}", "[" + blank + "]"), ["empty list"], "findall", TrapMapping(), ctx)
        ctx.evals += 1
        ctx.nontrivial(c[0], blank)
        for item in ITEMS:
            for end in (",", ", ", " ,", ",,"):
                q = c[0].replace("{x}", "[" + blank + item + end + blank + "]")
                judge(env, q, ["comma-terminated list"], "findall", TrapMapping(), ctx)
                ctx.evals += 1
                ctx.nontrivial(q)


PROPS = [
    Prop("queries", case, quick=250000, thorough=4000000),
    Enum("calls in positions", fn_cases, fn_case),
    Enum("integers in positions", int_cases, int_case),
    Enum("bracket lists", list_cases, list_case),
]
