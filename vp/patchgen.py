"""Generation of patches guided by the state of the document they apply to."""

from __future__ import annotations

from . import jsongen, refpatch, refptr

OPS = ["add", "remove", "replace", "move", "copy", "test"]
ODD_INDEX = ["-", "01", "00", "+1", "-1", "-0", " 1", "1 ", "1_0", "1.0", "1e0", "\uff11", "\u0661", "", "a", "#0", "#1", "~0", "0x1", "--", "-2"]


def tokens(src, doc, pool, insert=False):
    """Reference tokens of a location in or near doc."""
    nodes = list(jsongen.walk(doc))[:200]
    k = src.draw(20)
    if k == 0:
        return []
    if k < (8 if insert else 14):  # an existing location
        return [str(t) for t in src.choice(nodes)[0]]
    conts = [n for n in nodes if isinstance(n[1], (dict, list))]
    if k < 18 and conts:  # beside an existing one
        loc, v = src.choice(conts)
        loc = [str(t) for t in loc]
        if isinstance(v, list):
            j = src.draw(10)
            if j < 4:
                return loc + [str(len(v))]
            if j < 6:
                return loc + ["-"]
            if j < 7:
                return loc + [str(len(v) + src.int(1, 3))]
            if j < 8:
                return loc + [str(src.draw(len(v) + 1))]
            return loc + [src.choice(ODD_INDEX)]
        j = src.draw(6)
        if j == 0:
            name = src.choice(list(v)) if v else "a"
            return loc + [src.choice(["#", "~", ""]) + name + src.choice(["", " ", "/", "~"])]
        return loc + [src.choice(pool) if j < 4 else jsongen.gen_key(src)]
    # somewhere else
    loc = [str(t) for t in src.choice(nodes)[0]]
    for _ in range(src.int(1, 2)):
        loc.append(src.choice([*pool, "0", "1", "-", "a"]))
    return loc


def value(src, pool):
    k = src.draw(6)
    if k < 3:
        return jsongen.gen_scalar(src, pool)
    return jsongen.gen_value(src, pool, 2, [6])


def near(src, v):
    """A value that is equal to v as JSON, or nearly so."""
    k = src.draw(10)
    v = jsongen.copy(v)
    if k < 5:
        return v
    if k < 6 and isinstance(v, dict):
        return dict(reversed(list(v.items())))

    def swap(x):
        if x is True:
            return 1
        if x is False:
            return 0
        if x is None:
            return False
        if isinstance(x, (int, float)):
            if x == 1:
                return True
            if x == 0:
                return src.choice([False, -0.0, 0.0, None])
            return float(x) if isinstance(x, int) and abs(x) < 2**53 and src.bool() else x + 1
        if isinstance(x, str):
            return x + "a"
        if isinstance(x, dict):
            return src.choice([[], {**x, "zz": None}])
        return src.choice([{}, [*x, None]])

    # one place, anywhere inside
    nodes = list(jsongen.walk(v))
    loc, x = nodes[src.draw(min(len(nodes), 40))]
    if not loc:
        return swap(x)
    parent = refptr.walk(v, loc[:-1])
    parent[loc[-1]] = swap(x)
    return v


def usable(toks):
    """No integer tokens beyond the index limit (recorded as known findings)."""
    return all(not refptr.CANON_SIGNED.fullmatch(t) or abs(int(t)) <= refptr.LIMIT for t in toks)


def op(src, doc, pool, names):
    name = src.choice(names)
    out = {"op": name}
    if name in ("move", "copy"):
        source = tokens(src, doc, pool)
        out["from"] = refptr.spell(source)
        if src.bool(1, 10):
            dest = source + [src.choice(["0", "-", *pool])] if src.bool() else list(source)
        else:
            dest = tokens(src, doc, pool, insert=True)
        out["path"] = refptr.spell(dest)
        return out
    toks = tokens(src, doc, pool, insert=name.startswith("add"))
    if name == "remove" and not toks:
        toks = [src.choice(pool)]
    out["path"] = refptr.spell(toks)
    if name == "test":
        try:
            out["value"] = near(src, refptr.resolve(doc, toks))
        except refptr.Missing:
            out["value"] = value(src, pool)
    elif name != "remove":
        out["value"] = value(src, pool)
    return out


def patch(src, doc, pool, names=OPS, hi=6):
    """Operations that mostly succeed, followed with some probability by anything."""
    doc = jsongen.copy(doc)
    ops = []
    n = src.count(1, hi, 3, 4)
    for _ in range(n):
        good = not src.bool(1, 6)
        for _ in range(4):
            o = op(src, doc, pool, names)
            if not all(usable(refptr.split(o[k])) for k in ("path", "from") if k in o):
                continue
            kind = refpatch.apply(doc, [o])
            if kind[0] == "ok" or not good:
                break
        else:
            continue
        ops.append(o)
        if kind[0] != "ok":
            break
        doc = kind[1]
    # members of an operation may come in any order
    if src.bool(1, 6):
        ops = [dict(reversed(list(o.items()))) for o in ops]
    return ops
