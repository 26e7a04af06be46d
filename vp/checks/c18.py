"""C18: the command line tool is a faithful front end to the library."""

from __future__ import annotations

import gc
import io
import json
import locale
import os
import re
import subprocess
import sys
import tempfile
import traceback
import warnings

from .. import jsongen, patchgen, qgen, refptr
from ..engine import Discard, Enum, Prop, Violation
from ..lib import JSONPatchError, JSONPathError, JSONPointer, JSONPointerError, _Metered, describe, metered_env, patch_mod, ptr_mod
from . import c06

RULE = (
    "invocations of the three sub-commands: standard and extended queries, ill-typed ones, token soup, mutations and "
    "hand-written malformed ones; pointers that exist, nearly exist and don't parse, with JSON, URI and tilde escapes; "
    "lists of patch operations that apply, fail or are malformed - on documents of every kind, as UTF-8, UTF-16 or "
    "UTF-32, with and without a byte order mark, truncated, with bytes that don't decode, with too many digits or too "
    "much nesting, empty; x expression inline or from a file (padded with whitespace), document from a file, `-` or "
    "standard input, patch from a file or `-`, output to standard output, `-` or a file, --pretty, --no-unicode-escape, "
    "--uri-decode, --no-type-checks, --debug. The oracle is the library call given the same bytes: on success the output "
    "is json.dumps of its result, exactly, and the status 0; when it refuses, a non-empty line on standard error, "
    "no traceback, nothing written, status 1. Most run in this process; one in 60, one for every combination of "
    "options, and every violation are run as `python -m jsonpath`. Exhaustive: every combination of options "
    "x expressions that succeed, fail in each way, or depend on an option. Non-trivial: every judged invocation; "
    "distinct by (arguments, expression, document)."
)

ASSUMPTIONS = [
    "with --debug a refused input may print anything; only its status and that nothing is written are judged",
    "expressions in files are stripped of surrounding whitespace, so ones that begin or end with whitespace are only given inline",
    "what argparse refuses (missing files, unknown options) is a usage error and not judged",
    "a patch that is not an array is refused; a patch document that is a string is not judged",
]

warnings.simplefilter("ignore", FutureWarning)
warnings.simplefilter("ignore", DeprecationWarning)

ENVS = {(u, w): metered_env(unicode_escape=u, well_typed=w) for u in (True, False) for w in (True, False)}
UTF8 = locale.getpreferredencoding(False).lower().replace("-", "") == "utf8"
FAMILIES = (JSONPathError, JSONPointerError, JSONPatchError)
LIMIT = 20000


# -- running ----------------------------------------------------------------------------------

class Spec:
    """One invocation."""

    def __init__(self, command, expr, doc, options, how):
        self.command = command
        self.expr = expr  # text, or the bytes of a patch document
        self.doc = doc  # bytes
        self.pretty, self.raw, self.uri, self.untyped, self.debug = options
        self.source, self.docfrom, self.out, self.short = how

    def details(self):
        return {
            "command": self.command, "expression": ascii(self.expr)[:3000], "document": ascii(self.doc[:3000]),
            "arguments": [ascii(a)[:300] for a in self.argv("DIR")],
        }

    def argv(self, base):
        a = []
        if self.pretty:
            a.append("--pretty")
        if self.raw:
            a.append("--no-unicode-escape")
        if self.debug:
            a.append("--debug")
        a.append(self.command)
        if self.command == "patch":
            a.append(os.path.join(base, "expr") if self.source == "file" else "-")
        elif self.source == "file":
            a += ["-r" if self.short else f"--{self.command}-file", os.path.join(base, "expr")]
        else:
            long = "query" if self.command == "path" else "pointer"
            if self.expr.startswith("-") or not self.short:
                a.append(f"--{long}={self.expr}")
            else:
                a += [f"-{long[0]}", self.expr]
        if self.uri:
            a.append("-u" if self.short else "--uri-decode")
        if self.untyped:
            a.append("--no-type-checks")
        if self.docfrom == "file":
            a += ["-f" if self.short else "--file", os.path.join(base, "doc")]
        elif self.docfrom == "dash":
            a += ["-f", "-"]
        if self.out == "file":
            a += ["-o" if self.short else "--output", os.path.join(base, "out")]
        elif self.out == "dash":
            a += ["-o", "-"]
        return a

    def stdin(self):
        if self.command == "patch" and self.source != "file":
            return self.expr
        return self.doc if self.docfrom != "file" else b"[]"

    def files(self, base, padding):
        if self.source == "file":
            with open(os.path.join(base, "expr"), "wb") as f:
                f.write(self.expr if isinstance(self.expr, bytes) else (self.expr + padding).encode())
        with open(os.path.join(base, "doc"), "wb") as f:
            f.write(self.doc)
        if self.out == "file" and len(self.doc) % 2:
            # There is something at the place of the output already, to be replaced.
            with open(os.path.join(base, "out"), "wb") as f:
                f.write(OLD)

    def library(self):
        """("ok", result) or ("refused", why), from the library."""
        def file():
            if self.docfrom != "stdin":
                return io.BytesIO(self.doc)
            return io.TextIOWrapper(io.BytesIO(self.doc), encoding="utf-8")

        try:
            json.loads(file().read())
            ops = json.loads(self.expr) if self.command == "patch" else []
        except (ValueError, RecursionError) as err:
            return "refused", type(err).__name__
        if isinstance(ops, str):
            raise Discard
        if not isinstance(ops, list):
            return "refused", "not an array"
        f = file()
        escape = not self.raw
        try:
            if self.command == "path":
                path = ENVS[escape, not self.untyped].compile(self.expr)
                _Metered.steps = 0
                _Metered.limit = LIMIT
                return "ok", path.findall(f)
            if self.command == "pointer":
                return "ok", ptr_mod.resolve(self.expr, f, unicode_escape=escape, uri_decode=self.uri)
            return "ok", patch_mod.apply(ops, f, unicode_escape=escape, uri_decode=self.uri)
        except FAMILIES as err:
            return "refused", type(err).__name__
        except Exception as err:
            # what may escape from the library is C06's business
            raise Discard from err


class Run:
    def __init__(self, status, out, err, outfile, tb=""):
        self.status, self.out, self.err, self.outfile, self.tb = status, out, err, outfile, tb


def read_out(base):
    path = os.path.join(base, "out")
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        got = f.read()
    return None if got == OLD else got


OLD = b'["what was here before"]\n' * 40


def in_process(spec, base):
    from jsonpath import cli

    streams = sys.argv, sys.stdin, sys.stdout, sys.stderr
    raw_out, raw_err = io.BytesIO(), io.BytesIO()
    out = io.TextIOWrapper(raw_out, encoding="utf-8", write_through=True, newline="\n")
    err = io.TextIOWrapper(raw_err, encoding="utf-8", errors="backslashreplace", write_through=True, newline="\n")
    sys.argv = ["json", *spec.argv(base)]
    sys.stdin = io.TextIOWrapper(io.BytesIO(spec.stdin()), encoding="utf-8")
    sys.stdout, sys.stderr = out, err
    status, tb = 0, ""
    try:
        cli.main()
    except SystemExit as e:
        status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        if isinstance(e.code, str):
            err.write(e.code + "\n")
    except Exception as e:
        status = 1
        tb = "Traceback: " + describe(e)[:1000]
        traceback.clear_frames(e.__traceback__)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = streams
    for stream in (out, err):
        if not stream.closed:
            stream.flush()
    got = read_out(base)
    if spec.out == "file" and not got and status == 0:
        gc.collect()
        got = read_out(base)
    return Run(status, raw_out.getvalue() if not raw_out.closed else b"", raw_err.getvalue() if not raw_err.closed else b"", got, tb)


def as_process(spec, base):
    repo = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["jsonpath"].__file__)))
    env = {**os.environ, "PYTHONPATH": repo, "PYTHONUTF8": "1", "PYTHONIOENCODING": "utf-8:strict", "PYTHONWARNINGS": "ignore", "PYTHONDONTWRITEBYTECODE": "1"}
    p = subprocess.run([sys.executable, "-m", "jsonpath", *spec.argv(base)], input=spec.stdin(), capture_output=True, cwd=base, env=env, timeout=120)
    return Run(p.returncode, p.stdout, p.stderr, read_out(base))


def complaint(spec, want, run):
    """What is wrong with this run, or None."""
    if want[0] == "ok":
        text = json.dumps(want[1], indent=2 if spec.pretty else None).encode()
        if run.tb:
            return f"the library accepts this; the command ends in a {run.tb}"
        if run.status != 0:
            return f"the library accepts this; the command exits with status {run.status}: {run.err[:500]!r}"
        got = run.outfile if spec.out == "file" else run.out
        if got != text:
            return f"expected the output {text[:1500]!r}, got {got[:1500] if got is not None else None!r}"
        if spec.out == "file" and run.out:
            return f"the output goes to a file, yet this was written to standard output: {run.out[:500]!r}"
        return None
    if run.status == 0:
        return f"the library refuses this ({want[1]}); the command exits with status 0, output {(run.outfile or run.out)[:500]!r}"
    if run.out or run.outfile:
        return f"the library refuses this ({want[1]}), yet this was written: {(run.out or run.outfile)[:500]!r}"
    if spec.debug:
        return None
    if run.tb:
        return f"the library refuses this ({want[1]}); the command ends in a {run.tb}"
    if run.status != 1:
        return f"the library refuses this ({want[1]}); expected status 1, got {run.status}"
    err = run.err.decode("utf-8", "replace")
    if "Traceback (most recent call last)" in err:
        return f"the library refuses this ({want[1]}); the command prints a traceback: {err[-500:]!r}"
    lines = re.split("\r\n|\r|\n", err[:-1] if err.endswith("\n") else err)
    if len(lines) != 1 or not lines[0].strip():
        return f"the library refuses this ({want[1]}); expected one line on standard error, got {err[:1000]!r}"
    return None


def fits(spec):
    """May this text be given this way?"""
    if isinstance(spec.expr, bytes):
        return not (spec.source != "file" and spec.docfrom != "file")
    try:
        spec.expr.encode()
    except UnicodeEncodeError:
        return False
    if spec.source != "file":
        return True
    return spec.expr == spec.expr.strip() and "\r" not in spec.expr and (UTF8 or spec.expr.isascii())


def judge(spec, ctx, process, padding=""):
    if not fits(spec):
        raise Discard
    want = spec.library()
    with tempfile.TemporaryDirectory(prefix="vpcli") as base:
        spec.files(base, padding)
        bad = None
        possible = isinstance(spec.expr, bytes) or spec.source == "file" or ("\x00" not in spec.expr and len(spec.expr) < 100000)
        if process and possible:
            bad = complaint(spec, want, as_process(spec, base))
        else:
            run = in_process(spec, base)
            bad = complaint(spec, want, run)
            if bad and possible:
                # the verdict is about the command, not about calling main()
                if os.path.exists(os.path.join(base, "out")):
                    os.remove(os.path.join(base, "out"))
                bad = complaint(spec, want, as_process(spec, base))
        if bad:
            raise Violation(bad, **spec.details())
    ctx.label(f"{spec.command}: {'ok' if want[0] == 'ok' else 'refused ' + want[1]}")
    ctx.nontrivial(spec.argv(""), spec.expr, spec.doc, spec.docfrom)
    return want


# -- generation -------------------------------------------------------------------------------

def options(src, command):
    pretty, raw, debug = src.bool(1, 3), src.bool(1, 3), src.bool(1, 10)
    uri = command != "path" and src.bool(1, 3)
    untyped = command == "path" and src.bool(1, 3)
    return pretty, raw, uri, untyped, debug


def ways(src, command):
    source = src.choice(["inline", "inline", "file"] if command != "patch" else ["file", "file", "file", "dash"])
    docfrom = src.choice(["file", "file", "stdin", "dash"]) if source != "dash" else "file"
    return source, docfrom, src.choice(["stdout", "stdout", "file", "dash"]), src.bool()


def spoil(src, data):
    """Bytes that may not be a document any more."""
    k = src.draw(10)
    if k == 0:
        return data[: src.draw(len(data) + 1)]
    if k == 1:
        i = src.draw(len(data) + 1)
        return data[:i] + src.choice([b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf5", b"\x00", b"\n", b",", b"}", b"'", b"NaN", b"\\"]) + data[i:]
    if k == 2:
        return data + src.choice([b" 1", b"]", b"{}", b"\xff", b"\x00", b"\n\n"])
    if k == 3:
        return b'"' + data + b'\xff"'
    return src.choice([
        b"", b" ", b"\n", b"\xff\xfe", b"\xef\xbb\xbf", b"nul", b"{'a': 1}", b'{"a": 1,}', b"[1,]", b"[1 2]", b'{"a"}', b"\x80", b'"\xff"', b'{"a": "\xe9"}',
        b"9" * 5000, b'{"a": ' + b"1" * 4400 + b"}", b"[" * 20000 + b"]" * 20000, b'{"a":' * 20000 + b"1" + b"}" * 20000, b"[" * 3000, b"NaN", b'{"a": Infinity}', b'"\\ud800"', b'{"\\udc00": "\\ud83d"}',
        b'"a', b"a", b"\x00", b'{"a": 1}\x00', b"# comment\n1", b"\xef\xbb\xbf[1]",
    ])


def encode(src, doc):
    data = json.dumps(doc, ensure_ascii=src.bool(), indent=src.choice([None, None, 1]))
    try:
        raw = data.encode()
    except UnicodeEncodeError:
        raw = data = json.dumps(doc).encode()
        data = data.decode()
    if src.bool(1, 8):
        return data.encode(src.choice(["utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-be"]))
    return raw


TRICKY = {"A": 1, "\\u0041": 2, "%41": 3, "\\x41": 4, "a b": [5, {"A": 6}], "a%20b": 7, "a+b": 8, "é": [0, None], "%C3%A9": 10, "\\u00e9": 11, "~0": 12, "~": 13, "/": 14, "%2F": 15, "😀": 16, "\\ud83d\\ude00": 17, "": {"": ""}, "\\": 18, "a\\/b": 19}
TRICKY_QUERIES = [
    "$['\\u0041']", '$["\\u0041", "A"]', "$['\\\\u0041']", "$['%41']", "$..['\\u00e9']", "$[?@ == '\\u0041']", "$['\\ud83d\\ude00']", "$.A", "$['\\x41']", "$['a\\/b']", "$['\\\\']",
]
TRICKY_POINTERS = [
    "/\\u0041", "/%41", "/A", "/%5Cu0041", "/\\x41", "/a b", "/a%20b", "/a+b", "/%C3%A9", "/\\u00e9", "/é", "/~0", "/~00", "/~1", "/%7E1", "/%2F", "/\\ud83d\\ude00", "/%F0%9F%98%80", "//",
    "/", "", "/\\", "/%", "/%zz", "/\\u", "/a%20b/0", "/a b/1/\\u0041", "/%255Cu0041",
]
TYPED_QUERIES = [
    "$[?count(@.a) > 0]", "$[?count(1) == 1]", "$[?length(@.*) == 1]", "$[?@.* == 1]", "$[?match(@.a, 'a') == true]", "$[?length(@.a)]", "$[?value(@..a) == 1]", "$[?@..a == @..b]",
    "$[?length(@.a, @.b) == 1]", "$[?count() == 1]", "$[?length(@) < 3]", "$[?value(@.a) == 1]", "$[?count(@['a','b']) == 2]", "$[?!length(@.a)]", "$[?@[*] == 1 || @.a]", "$[?search(@.*, 'a')]",
]
BAD_QUERIES = [
    "", "$", "$.", "$[", "$[?", "a", "$[0", "$..", "$['a", "$[?@.a ==]", "$[9007199254740992]", "$[?nosuch(@)]", "$[::0]", "$[01]", "$ | ", "& $", "$[?(@.a]", "$.a\nb", "$['a\nb']", "$[?@.a == 'x\n\ny'", "^", "$[?@.a =~ /(/]", "-1",
    "$['\\u00zz']", "$[?length(@.a,", "\n", "$\n.\nx y", "$[?@.a == '\\'']", "--", "-q", "-", "$[?nosuch(@) &&\n\n@.a]", "$[?count(\n@.a) ]", "$[\n99999999999999999]", "$[?length(\n@.*) == 1]", "$..[?\nfoo(@)]",
]
BAD_POINTERS = ["a", "/a/", "~", "/~", "0", "/-", "/0", "/9007199254740992", "/\\u00", "/\\ud800", "a\nb", "/a\nb", "#/a", "/a\n\nb/c", "\n", "-1", "/-1", "/a\n/~2", "/x\ny/\\u", "--", "-p", "/#0", "/%0A", "/a/b/c/d/e"]
BAD_PATCHES = [
    b"", b"[", b"{}", b"null", b"1", b"true", b'{"op": "add"}', b"[[]]", b"[1]", b'[{"op": "add"}]', b'[{"op": "nosuch", "path": "/a"}]', b'[{"op": "add", "path": "a", "value": 1}]', b'[{"path": "/a"}]',
    b'[{"op": "remove", "path": "/nosuch"}]', b'[{"op": "test", "path": "", "value": "no\\nsuch"}]', b'[{"op": "test", "path": "/a\\n\\nb", "value": 1}]', b'[{"op": "move", "path": "/a"}]', b'[{"op": "no\\nsuch", "path": "/a"}]',
    b"\xff", b"[{}]", b"[" * 20000, b"[" + b"9" * 5000 + b"]", b'["a"]', b"[null]", b'[{"op": "add", "path": "/a", "value": 1}', b'[{"op": "replace", "path": "/x/y\\nz", "value": 1}]', b'[{"op": "copy", "from": "/no", "path": "/a"}]',
    b'[{"op": ["a"], "path": "/a"}]', b"[]", b'[{"op": "add", "path": "", "value": null}]', b'\xef\xbb\xbf[]',
]


def make_query(src):
    """A query, and the document to apply it to."""
    k = src.draw(16)
    if k < 7:
        pool = jsongen.gen_pool(src)
        doc = jsongen.gen_doc(src, pool)
        ext = src.bool(1, 2)
        g = qgen.Gen(src, doc, pool, filters=True, ext=ext, extfuncs=ext, max_segs=4, fdepth=2)
        r = qgen.Render(src, ext=ext)
        text = r.query(g.query("$"), top=True)
        if ext and src.bool(1, 6):
            text += src.choice([" | ", " & "]) + r.query(g.query("$"), top=True)
        if k == 0:
            text = c06.mutate(src, text, text)
        return text, doc
    doc = src.choice(c06.DOCS)
    if k < 9:
        return src.choice(TYPED_QUERIES), src.choice([doc, [{"a": [1, 2], "b": 2}, {"a": "a"}, [1], "ab", {"a": 1}]])
    if k < 11:
        return src.choice(TRICKY_QUERIES), TRICKY
    if k < 13:
        return src.choice(BAD_QUERIES), doc
    if k < 14:
        return c06.soup(src), doc
    return c06.Grammar(src).query(), doc


def make_pointer(src):
    k = src.draw(10)
    if k < 3:
        return src.choice(TRICKY_POINTERS), TRICKY
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool)
    if k < 5:
        return refptr.spell([str(t) for t in src.choice(list(jsongen.walk(doc))[:200])[0]]), doc
    if k < 6:
        return src.choice(BAD_POINTERS), doc
    return c06.pointer_text(src, doc), doc


def make_patch(src):
    k = src.draw(12)
    pool = jsongen.gen_pool(src)
    doc = jsongen.gen_doc(src, pool)
    if k < 2:
        return src.choice(BAD_PATCHES), doc
    if k < 4:
        ops = []
        for _ in range(src.int(1, 3)):
            op = src.choice(["add", "replace", "remove", "test", "copy", "move"])
            o = {"op": op, "path": src.choice(TRICKY_POINTERS)}
            if op in ("copy", "move"):
                o["from"] = src.choice(TRICKY_POINTERS)
            elif op != "remove":
                o["value"] = src.choice([1, "x", None, {"A": 1}])
            ops.append(o)
        doc = TRICKY
    elif k < 9:
        ops = patchgen.patch(src, doc, pool)
    else:
        ops = [c06.patch_op(src, doc, pool) for _ in range(src.count(1, 4, 1, 2))]
    data = json.dumps(ops).encode()
    if src.bool(1, 10):
        data = spoil(src, data)
    return data, doc


def case(command):
    def run(src, ctx):
        expr, doc = {"path": make_query, "pointer": make_pointer, "patch": make_patch}[command](src)
        if command == "path" and (c06.too_deep(expr) or c06.costly(expr)):
            raise Discard
        data = encode(src, doc)
        if src.bool(1, 10):
            data = spoil(src, data)
        opts = options(src, command)
        how = ways(src, command)
        if how[0] == "file" and not isinstance(expr, bytes) and expr != expr.strip():
            how = ("inline", *how[1:])
        padding = src.choice(["", "", "\n", " \n", "\t"]) if how[0] == "file" else ""
        spec = Spec(command, expr, data, opts, how)
        want = judge(spec, ctx, src.draw(60) == 59, padding)
        ctx.sample({"arguments": [ascii(a)[:120] for a in spec.argv("DIR")], "document": ascii(data[:150]), "outcome": want[0]})
    return run


# -- every combination of options -------------------------------------------------------------

STD = json.dumps({"a": [1, {"b": None}], "s": "é", **TRICKY}).encode()
EXPRS = {
    "path": ["$..a", "$['\\u0041']", "$[?count(@['a','b']) == 2]", "$[?length(@.*) == 1]", "$[", "$[?nosuch(@)]", "$[9007199254740992]", "$.nosuch", "$.s", "$[?@..a == @..b]", "$['a\nb", "$[?count(@.a)]"],
    "pointer": ["", "/a/1", "/\\u0041", "/%41", "/a%20b/0", "/nosuch", "/a/9", "a", "/a\nb", "/s/0", "/%5Cu0041", "/~1"],
    "patch": [
        b"[]", b'[{"op": "add", "path": "/\\\\u0041", "value": "x"}]', b'[{"op": "add", "path": "/%41", "value": "x"}]', b'[{"op": "remove", "path": "/nosuch"}]', b'[{"op": "test", "path": "/a/0", "value": 2}]',
        b'[{"op": "move", "from": "/%5Cu0041", "path": "/a/0"}]', b"[{}]", b"{}", b"[", b"\xff", b'[{"op": "copy", "from": "/a b", "path": "/a%20b/-"}]', b'[{"op": "add", "path": "a", "value": 1}]',
    ],
}
DOCS = [STD, b"[1, 2", b"\xff", b'"text"', b"[]", b"9" * 5000, b"[" * 20000 + b"]" * 20000]
FLAGS = [(False, False), (True, False), (False, True), (True, True)]


def combos(tier):
    for command in ("path", "pointer", "patch"):
        for source in ("inline", "file") if command != "patch" else ("file", "dash"):
            for docfrom in ("file", "stdin", "dash") if source != "dash" else ("file",):
                for out in ("stdout", "dash", "file"):
                    for pretty, raw in FLAGS:
                        for extra in (False, True):
                            for debug in (False, True):
                                opts = (pretty, raw, extra and command != "path", extra and command == "path", debug)
                                yield command, opts, (source, docfrom, out, pretty ^ raw)


def out_turn(opts, how):
    """A third of the combinations also run as a process of their own."""
    return (sum(opts) + how[2].count("a") + len(how[0])) % 3 == 0


def combo_case(c, ctx):
    command, opts, how = c
    first = True
    for i, expr in enumerate(EXPRS[command]):
        for doc in DOCS if i == 0 else DOCS[:1]:
            judge(Spec(command, expr, doc, opts, how), ctx, first and not opts[4] and out_turn(opts, how))
            first = False


PROPS = [
    Prop("path", case("path"), quick=14000),
    Prop("pointer", case("pointer"), quick=9000),
    Prop("patch", case("patch"), quick=9000),
    Enum("option combinations", combos, combo_case),
]
