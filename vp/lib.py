"""Access to the code under test (imported from /repo's working tree)."""

from __future__ import annotations

import jsonpath
from jsonpath import pointer as ptr_mod
from jsonpath import patch as patch_mod
from jsonpath.exceptions import (  # noqa: F401
    JSONPatchError,
    JSONPatchTestFailure,
    JSONPathError,
    JSONPointerError,
    JSONPointerResolutionError,
    RelativeJSONPointerError,
    RelativeJSONPointerSyntaxError,
    RelativeJSONPointerIndexError,
)
from jsonpath import JSONPathEnvironment, JSONPatch, JSONPointer, RelativeJSONPointer  # noqa: F401
from jsonpath.function_extensions import ExpressionType, FilterFunction  # noqa: F401

from .engine import Discard, Violation


def describe(exc):
    return f"{type(exc).__name__}: {exc}"


def call(fn, *args, what="call", details=None, **kw):
    """Call fn; any exception at all becomes a Violation."""
    try:
        return fn(*args, **kw)
    except RecursionError as err:
        raise Violation(f"{what} raised RecursionError", **(details or {})) from err
    except Exception as err:
        raise Violation(f"{what} raised {describe(err)}", **(details or {})) from err


class _Metered(JSONPathEnvironment):
    """An environment that gives up (Discard) on queries that take too many steps."""

    steps = 0
    limit = 0

    def _step(self):
        _Metered.steps += 1
        if _Metered.steps > _Metered.limit:
            raise Discard

    def is_truthy(self, obj):
        self._step()
        return super().is_truthy(obj)

    def compare(self, left, operator, right):
        self._step()
        return super().compare(left, operator, right)

    def getitem(self, obj, key):
        self._step()
        return super().getitem(obj, key)


class _MeteredMatch(_Metered.match_class):
    __slots__ = ()

    def __init__(self, **kw):
        _Metered.steps += 1
        if _Metered.steps > _Metered.limit:
            raise Discard
        super().__init__(**kw)


_Metered.match_class = _MeteredMatch


def metered_env(**kw):
    return _Metered(**kw)


def meter(path, doc, arg, limit=4000):
    """Discard the case if evaluating this metered-environment path takes too many steps."""
    _Metered.steps = 0
    _Metered.limit = limit
    return list(path.finditer(doc, **arg))
