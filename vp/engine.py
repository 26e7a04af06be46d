"""A small property-based testing engine.

Every random decision of a generator is drawn through a `Src`, which records the
decisions as a list of small integers (the *choice sequence*).  That gives three
things for free: runs are a pure function of the seed, any failure can be replayed
from its choice sequence, and failures are shrunk by editing the choice sequence
(so generator invariants are kept while shrinking).
"""

from __future__ import annotations

import hashlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

NSHARDS = 8
CASE_CPU_LIMIT = 20.0  # CPU seconds; normal cases take milliseconds
WALL_LIMIT = {"quick": 600.0, "thorough": 6 * 3600.0}
FUZZ_SECONDS = 1200  # per property, in the thorough tier
SHRINK_EVALS = 4000
SHRINK_WALL = 40.0


class Discard(Exception):
    """The generated case is outside the property's domain."""


class CaseTimeout(BaseException):
    """One case used more than CASE_CPU_LIMIT seconds of CPU."""


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, **details):
        super().__init__(msg)
        self.msg = msg
        self.details = details


class Src:
    """Source of choices; random, or replaying a recorded sequence."""

    __slots__ = ("_rand", "rec", "_replay", "_pos")

    def __init__(self, rng=None, replay=None):
        self._rand = rng.random if rng is not None else None
        self._replay = replay
        self._pos = 0
        self.rec = []

    def draw(self, n):
        """An integer in range(n). 0 is the simplest value."""
        if self._replay is None:
            v = int(self._rand() * n)
        elif self._pos < len(self._replay):
            v = self._replay[self._pos]
            self._pos += 1
            if v >= n:
                v = n - 1
        else:
            v = 0
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def bool(self, num=1, den=2):
        """True with probability num/den; False is simplest."""
        return self.draw(den) >= den - num

    def weighted(self, pairs):
        """pairs: sequence of (weight, value)."""
        tot = 0
        for w, _ in pairs:
            tot += w
        k = self.draw(tot)
        for w, v in pairs:
            k -= w
            if k < 0:
                return v
        raise AssertionError

    def count(self, lo, hi, num=1, den=2):
        """Geometric-ish count in lo..hi."""
        n = lo
        while n < hi and self.bool(num, den):
            n += 1
        return n

    def subset(self, seq, hi):
        """Up to hi distinct elements, drawn without replacement."""
        pool = list(seq)
        out = []
        n = self.int(0, min(hi, len(pool)))
        for _ in range(n):
            out.append(pool.pop(self.draw(len(pool))))
        return out


class BytesSrc(Src):
    """Choices decoded from a byte string (for coverage-guided fuzzing)."""

    __slots__ = ("data", "off")

    def __init__(self, data):
        super().__init__(replay=[])
        self.data = data
        self.off = 0

    def draw(self, n):
        if n <= 1:
            v = 0
        elif n <= 256:
            b = self.data[self.off : self.off + 1]
            self.off += 1
            v = (b[0] % n) if b else 0
        else:
            b = self.data[self.off : self.off + 4]
            self.off += 4
            v = int.from_bytes(b, "little") % n if b else 0
        self.rec.append(v)
        return v


class Ctx:
    """Per-shard statistics, and the channel through which checks report."""

    def __init__(self, prop_id, tier, seed, known=()):
        self.prop_id = prop_id
        self.tier = tier
        self.seed = seed
        self.known = set(known)
        self.labels = {}
        self.nontrivial_keys = set()
        self.samples = []
        self.evals = 0
        self.known_hits = {}
        self._nt = False

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, *key):
        """Count the current case as non-trivial, keyed for distinctness."""
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8)
        self.nontrivial_keys.add(h.digest())

    def sample(self, obj, every=2000, limit=6):
        if len(self.samples) < limit and (
            len(self.samples) < 2 or self.evals % every == 0
        ):
            self.samples.append(obj)

    def known_hit(self, fid):
        self.known_hits[fid] = self.known_hits.get(fid, 0) + 1


class Prop:
    """A randomly explored sub-property: fn(src, ctx) generates and checks one case."""

    def __init__(self, name, fn, quick, thorough=None, fuzz=True):
        self.name = name
        self.fn = fn
        self.n = {"quick": quick, "thorough": thorough or quick * 20}
        self.fuzz = fuzz


class Enum:
    """An exhaustively enumerated sub-property.

    cases(tier) yields picklable cases; check(case, ctx) checks one of them.
    """

    def __init__(self, name, cases, check):
        self.name = name
        self.cases = cases
        self.check = check


def _on_timer(_sig, _frm):
    raise CaseTimeout


def _arm(t=CASE_CPU_LIMIT):
    signal.setitimer(signal.ITIMER_PROF, t)


# A single slow case is a big random input; that many in one run are a call that never ends.
MIN_TIMEOUTS = 3
TIMEOUT_MSG = f"the call did not finish within {CASE_CPU_LIMIT:.0f} s of CPU time"


def _timeout_violation():
    return Violation(TIMEOUT_MSG)


def run_case(prop, src, ctx):
    """Run one random case; returns None or a Violation."""
    try:
        prop.fn(src, ctx)
    except Discard:
        return None
    except Violation as v:
        return v
    except Exception as err:
        v = escaped(err)
        if v is None:
            raise
        return v
    return None


def escaped(err):
    """A Violation, if the code under test raised `err` where a check expects no error."""
    import jsonpath

    where = os.path.dirname(os.path.realpath(jsonpath.__file__)) + os.sep
    tb = err.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(where):
            return Violation(
                f"an unexpected {type(err).__name__} escaped from the library",
                traceback="".join(traceback.format_exception(err))[-3000:],
            )
        tb = tb.tb_next
    return None


def run_enum(prop, case, ctx):
    """Check one enumerated case; returns None or a Violation."""
    try:
        prop.check(case, ctx)
    except Discard:
        return None
    except Violation as v:
        return v
    except Exception as err:
        v = escaped(err)
        if v is None:
            raise
        return v
    return None


def shrink(prop, choices, violation, prop_id, tier, seed, known):
    """Minimise a failing choice sequence."""
    best = list(choices)
    best_v = violation
    evals = 0
    t0 = time.monotonic()

    def trial(cand):
        nonlocal best, best_v, evals
        if evals >= SHRINK_EVALS or time.monotonic() - t0 > SHRINK_WALL:
            raise StopIteration
        evals += 1
        src = Src(replay=cand)
        ctx = Ctx(prop_id, tier, seed, known)
        try:
            _arm()
            v = run_case(prop, src, ctx)
        except CaseTimeout:
            return False
        except Exception:
            # A harness problem met only while shrinking: not this failure.
            return False
        finally:
            _arm(0)
        if v is None:
            return False
        rec = src.rec
        # Shortlex order, so that shrinking always makes progress.
        if (len(rec), rec) < (len(best), best):
            best, best_v = rec, v
            return True
        return False

    try:
        # Does it reproduce at all (outside the history of the run)?
        src = Src(replay=best)
        try:
            _arm()
            v = run_case(prop, src, Ctx(prop_id, tier, seed, known))
        except (CaseTimeout, Exception):
            v = None
        finally:
            _arm(0)
        if v is None:
            return best, best_v, False
        improved = True
        while improved:
            improved = False
            # delete chunks
            for k in (64, 32, 16, 8, 4, 3, 2, 1):
                i = len(best) - k
                while i >= 0:
                    if trial(best[:i] + best[i + k :]):
                        improved = True
                        i = min(i, len(best) - k)
                    else:
                        i -= 1 if k < 4 else k // 2
            # zero chunks
            for k in (8, 4, 2, 1):
                i = 0
                while i + k <= len(best):
                    if any(best[i : i + k]):
                        if trial(best[:i] + [0] * k + best[i + k :]):
                            improved = True
                    i += 1
            # lower single values; also lower one and delete a following run
            i = 0
            while i < len(best):
                lo, hi = 0, best[i]
                while lo < hi and i < len(best):
                    mid = (lo + hi) // 2
                    if trial(best[:i] + [mid] + best[i + 1 :]):
                        improved = True
                        hi = mid
                        if i >= len(best):
                            break
                    else:
                        lo = mid + 1
                if i < len(best) and best[i] > 0:
                    for d in (1, 2, 3, 4, 6, 8):
                        if trial(best[:i] + [best[i] - 1] + best[i + 1 + d :]):
                            improved = True
                            break
                i += 1
    except StopIteration:
        pass
    return best, best_v, True


def _shard(module, prop_id, tier, seed, shard, nshards, known, scale, only, outfile):
    """Run one shard; pickles its result to outfile."""
    res = {
        "evals": 0,
        "labels": {},
        "keys": set(),
        "samples": [],
        "per_prop": {},
        "failures": [],
        "error": None,
        "known_hits": {},
        "inconclusive": False,
    }
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGPROF, _on_timer)
    ctx = Ctx(prop_id, tier, seed, known)
    t0 = time.monotonic()
    limit = WALL_LIMIT[tier]
    try:
        for prop in module.PROPS:
            if only and prop.name not in only:
                continue
            n = 0
            tp = time.monotonic()
            if isinstance(prop, Enum):
                it = prop.cases(tier)
                for i, case in enumerate(it):
                    if i % nshards != shard:
                        continue
                    if n % 64 == 0:
                        _arm()
                        if time.monotonic() - t0 > limit:
                            res["inconclusive"] = True
                            break
                    n += 1
                    ctx.evals += 1
                    try:
                        v = run_enum(prop, case, ctx)
                    except CaseTimeout:
                        v = _confirm_timeout(lambda: run_enum(prop, case, ctx))
                    if v is not None:
                        _arm(0)
                        res["failures"].append(
                            {
                                "prop": prop.name,
                                "case": case,
                                "msg": v.msg,
                                "details": v.details,
                                "reproduced": True,
                            }
                        )
                        break
                _arm(0)
            else:
                total = int(prop.n[tier] * scale)
                mine = total // nshards + (1 if shard < total % nshards else 0)
                timeouts = 0
                rng = random.Random(f"{prop_id}/{prop.name}/{seed}/{shard}")
                while n < mine:
                    if n % 64 == 0:
                        _arm()
                        if time.monotonic() - t0 > limit:
                            res["inconclusive"] = True
                            break
                    n += 1
                    ctx.evals += 1
                    src = Src(rng)
                    try:
                        v = run_case(prop, src, ctx)
                    except CaseTimeout:
                        rec = list(src.rec)
                        v = _confirm_timeout(
                            lambda: run_case(prop, Src(replay=rec), Ctx(prop_id, tier, seed, known))
                        )
                        if v is None:
                            continue
                        res["failures"].append(
                            {
                                "prop": prop.name,
                                "choices": rec,
                                "msg": v.msg,
                                "details": v.details,
                                "reproduced": True,
                                "timeout": v.msg == TIMEOUT_MSG,
                            }
                        )
                        timeouts += 1
                        if timeouts < MIN_TIMEOUTS and v.msg == TIMEOUT_MSG:
                            ctx.label("ran out of CPU time")
                            continue
                        break
                    if v is not None:
                        _arm(0)
                        choices, v, rep = shrink(
                            prop, src.rec, v, prop_id, tier, seed, known
                        )
                        res["failures"].append(
                            {
                                "prop": prop.name,
                                "choices": choices,
                                "msg": v.msg,
                                "details": v.details,
                                "reproduced": rep,
                            }
                        )
                        break
                _arm(0)
            res["per_prop"][prop.name] = (n, time.monotonic() - tp)
    except BaseException:  # noqa: BLE001 - a harness error, reported as such
        _arm(0)
        res["error"] = traceback.format_exc()
    res["evals"] = ctx.evals
    res["labels"] = ctx.labels
    res["keys"] = ctx.nontrivial_keys
    res["samples"] = ctx.samples
    res["known_hits"] = ctx.known_hits
    with open(outfile, "wb") as fd:
        try:
            blob = pickle.dumps(res)
        except Exception:  # unpicklable details
            for f in res["failures"]:
                f["details"] = {k: repr(v) for k, v in f["details"].items()}
                f["case"] = repr(f.get("case"))
            blob = pickle.dumps(res)
        fd.write(blob)


def _confirm_timeout(thunk):
    """Re-run a case that ran out of CPU time; a Violation if it does so again."""
    try:
        _arm()
        return thunk()
    except CaseTimeout:
        return _timeout_violation()
    finally:
        _arm(0)


def jsonable(obj, depth=0):
    """Make details representable in a replay file."""
    if depth > 120:
        return repr(obj)[:200]
    if obj is None or isinstance(obj, (bool, int, float)):
        return obj
    if isinstance(obj, str):
        try:
            obj.encode("utf-8")
        except UnicodeEncodeError:
            return {"__repr__": repr(obj)}
        return obj
    if isinstance(obj, (list, tuple)):
        return [jsonable(x, depth + 1) for x in obj]
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in obj.items()}
    return {"__repr__": repr(obj)[:2000]}


def run_shards(module, prop_id, tier, seed, known, scale=1.0, only=None, nshards=NSHARDS):
    """Fork the shards and collect their results."""
    tmp = tempfile.mkdtemp(prefix="vp-")
    pids = []
    outs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for s in range(nshards):
        out = os.path.join(tmp, f"s{s}")
        outs.append(out)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _shard(
                    module, prop_id, tier, seed, s, nshards, known, scale, only, out
                )
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    results = []
    for pid, out in zip(pids, outs):
        _, status = os.waitpid(pid, 0)
        if status != 0 or not os.path.exists(out):
            results.append({"error": f"shard died with status {status}", "failures": []})
            continue
        with open(out, "rb") as fd:
            results.append(pickle.load(fd))
        os.unlink(out)
    for out in outs:
        if os.path.exists(out):
            os.unlink(out)
    os.rmdir(tmp)
    return results


def replay_file(module, path, known):
    """Re-run the failure stored in a replay file. Returns a Violation or None."""
    with open(path, encoding="utf-8") as fd:
        rep = json.load(fd)
    prop = next(p for p in module.PROPS if p.name == rep["prop"])
    ctx = Ctx(rep["property"], rep["tier"], rep["seed"], known)
    signal.signal(signal.SIGPROF, _on_timer)
    _arm()
    try:
        if isinstance(prop, Enum):
            want = rep["case_repr"]
            for case in prop.cases(rep["tier"]):
                if repr(case) == want:
                    return run_enum(prop, case, ctx)
            raise SystemExit("the enumerated case is no longer generated")
        return run_case(prop, Src(replay=rep["choices"]), ctx)
    except CaseTimeout:
        return _timeout_violation()
    finally:
        _arm(0)


def run_fuzz(module, pid, tier, seed, known, here, repo, scale):
    """Coverage-guided fuzzing of every random sub-property (see vp/fuzz.py)."""
    out = {"execs": 0, "failures": [], "errors": []}
    props = [p for p in module.PROPS if isinstance(p, Prop) and p.fuzz]
    seconds = max(10, int(FUZZ_SECONDS * scale / max(1, len(props))))
    for prop in props:
        tmp = tempfile.mkdtemp(prefix="vp-fuzz-")
        procs = []
        for k in range(NSHARDS):
            env = dict(os.environ, VERIF_REPO=repo)
            argv = [sys.executable, "-m", "vp.fuzz", pid, prop.name, str(seed * 1000 + k), str(seconds), tmp, repo]
            with open(os.path.join(tmp, f"log{k}"), "wb") as log:
                procs.append(subprocess.Popen(argv, cwd=here, env=env, stdout=log, stderr=log))
        for k, proc in enumerate(procs):
            try:
                rc = proc.wait(timeout=seconds + 300)
            except subprocess.TimeoutExpired:
                proc.kill()
                rc = proc.wait()
            try:
                with open(os.path.join(tmp, f"count{seed * 1000 + k}"), encoding="utf-8") as fd:
                    out["execs"] += int(fd.read() or 0)
            except FileNotFoundError:
                pass
            fail = os.path.join(tmp, f"fail{seed * 1000 + k}")
            if os.path.exists(fail):
                with open(fail, encoding="utf-8") as fd:
                    choices = json.load(fd)
                sig = signal.signal(signal.SIGPROF, _on_timer)
                choices, v, rep = shrink(
                    prop, choices, Violation("found by coverage-guided fuzzing; not reproduced"),
                    pid, tier, seed, known,
                )
                signal.signal(signal.SIGPROF, sig)
                out["failures"].append(
                    {"prop": prop.name, "choices": choices, "msg": v.msg, "details": v.details, "reproduced": rep}
                )
            elif rc != 0:
                with open(os.path.join(tmp, f"log{k}"), "rb") as fd:
                    out["errors"].append(fd.read()[-3000:].decode("utf-8", "replace"))
        shutil.rmtree(tmp)
    return out
