"""Coverage-guided fuzzing of one random sub-property, with atheris.

    python -m vp.fuzz C01 "random queries" SEED SECONDS OUTDIR REPO

libFuzzer's bytes are decoded to a choice sequence, so that its mutations are mutations of the
generator's decisions, guided by the coverage of the jsonpath package.  A failing choice sequence
is left in OUTDIR/failSEED, to be shrunk and reported by the caller.
"""

from __future__ import annotations

import importlib
import json
import os
import random
import signal
import sys
import warnings


def main():
    pid, name, seed, seconds, out, repo = sys.argv[1:7]
    sys.path.insert(0, repo)
    sys.setrecursionlimit(5000)
    warnings.simplefilter("ignore")
    import atheris

    with atheris.instrument_imports(include=["jsonpath"]):
        import jsonpath

        for mod in sorted(sys.modules):
            if mod.startswith("jsonpath."):
                getattr(jsonpath, mod, None)
    from . import engine, jsongen

    module = importlib.import_module(f"vp.checks.{pid.lower()}")
    jsongen.BIG_INT_NAMES = getattr(module, "BIG_INT_NAMES", False)
    prop = next(p for p in module.PROPS if p.name == name)
    ctx = engine.Ctx(pid, "thorough", int(seed))
    signal.signal(signal.SIGPROF, engine._on_timer)
    rng = random.Random(seed)
    corpus = os.path.join(out, f"corpus{seed}")
    os.mkdir(corpus)
    for i in range(200):
        with open(os.path.join(corpus, str(i)), "wb") as fd:
            fd.write(rng.randbytes(rng.choice([64, 256, 1024])))
    count = 0
    slow = 0

    def save(path, text):
        with open(path, "w", encoding="utf-8") as fd:
            fd.write(text)

    def one(data):
        nonlocal count, slow
        count += 1
        if count % 200 == 0:
            save(os.path.join(out, f"count{seed}"), str(count))
            ctx.nontrivial_keys.clear()
        src = engine.BytesSrc(data)
        engine._arm()
        try:
            v = engine.run_case(prop, src, ctx)
        except engine.CaseTimeout:
            rec = list(src.rec)
            v = engine._confirm_timeout(lambda: engine.run_case(prop, engine.Src(replay=rec), ctx))
        finally:
            engine._arm(0)
        if v is not None and v.msg == engine.TIMEOUT_MSG:
            slow += 1
            if slow < engine.MIN_TIMEOUTS:
                return
        if v is not None:
            save(os.path.join(out, f"fail{seed}"), json.dumps(src.rec))
            save(os.path.join(out, f"count{seed}"), str(count))
            print(v.msg, flush=True)
            os._exit(0)

    atheris.Setup(
        [sys.argv[0], corpus, f"-max_total_time={seconds}", f"-seed={seed}", "-max_len=2048", "-timeout=120",
         f"-artifact_prefix={out}/", "-rss_limit_mb=4096", "-verbosity=0"],
        one,
    )
    atheris.Fuzz()


if __name__ == "__main__":
    main()
