"""Reference model of JSON Patch (RFC 6902), with the documented addne and addap."""

from __future__ import annotations

from . import refptr
from .jsongen import copy, json_eq


class Fail(Exception):
    """The operation violates RFC 6902. kind: "test" for a test that compared unequal."""

    def __init__(self, kind, why):
        super().__init__(why)
        self.kind = kind


class Unspecified(Exception):
    """Neither RFC 6902 nor the documentation says what happens."""


def get(doc, tokens):
    try:
        return refptr.resolve(doc, tokens)
    except refptr.Missing as err:
        raise Fail("missing", str(err)) from None


def add(doc, tokens, value):
    if not tokens:
        return value
    parent = get(doc, tokens[:-1])
    t = tokens[-1]
    if isinstance(parent, dict):
        parent[t] = value
    elif isinstance(parent, list):
        if t == "-":
            parent.append(value)
        elif not refptr.CANON.fullmatch(t):
            raise Fail("index", "not an array index")
        elif int(t) > len(parent):
            raise Fail("index", "greater than the length")
        else:
            parent.insert(int(t), value)
    else:
        raise Fail("missing", "the parent is not a container")
    return doc


def remove(doc, tokens):
    get(doc, tokens)
    if not tokens:
        raise Unspecified
    parent = get(doc, tokens[:-1])
    t = tokens[-1]
    del parent[int(t) if isinstance(parent, list) else t]
    return doc


def apply1(doc, op):
    """One operation; doc may be changed in place."""
    name = op["op"]
    path = refptr.split(op["path"])
    if name == "add":
        return add(doc, path, copy(op["value"]))
    if name == "addne":
        if path:
            parent = get(doc, path[:-1])
            if isinstance(parent, dict) and path[-1] in parent:
                return doc
        return add(doc, path, copy(op["value"]))
    if name == "addap":
        if path:
            parent = get(doc, path[:-1])
            if isinstance(parent, list):
                t = path[-1]
                if t != "-" and not refptr.CANON.fullmatch(t):
                    raise Unspecified
                if t == "-" or int(t) >= len(parent):
                    path = path[:-1] + ["-"]
        return add(doc, path, copy(op["value"]))
    if name == "remove":
        return remove(doc, path)
    if name == "replace":
        get(doc, path)
        if not path:
            return copy(op["value"])
        parent = get(doc, path[:-1])
        parent[int(path[-1]) if isinstance(parent, list) else path[-1]] = copy(op["value"])
        return doc
    if name == "test":
        if not json_eq(get(doc, path), op["value"]):
            raise Fail("test", "not equal")
        return doc
    source = refptr.split(op["from"])
    value = get(doc, source)
    if name == "copy":
        return add(doc, path, copy(value))
    if name == "move":
        if len(path) > len(source) and path[: len(source)] == source:
            raise Fail("child", "can't move a value into its own child")
        if not source:
            return doc
        doc = remove(doc, source)
        return add(doc, path, value)
    raise AssertionError(name)


def apply(doc, ops):
    """Returns ("ok", document), ("fail", kind, i) or ("unspecified", i)."""
    doc = copy(doc)
    for i, op in enumerate(ops):
        try:
            doc = apply1(doc, op)
        except Fail as err:
            return ("fail", err.kind, i)
        except Unspecified:
            return ("unspecified", i)
    return ("ok", doc)
