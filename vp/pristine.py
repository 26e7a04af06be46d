"""Results computed in a process that has never computed anything else.

A server process imports the code under test and forks a child for every request, so no
state that earlier evaluations left behind in modules, classes or environments is seen.
"""

from __future__ import annotations

import json
import os
import resource
import subprocess
import sys

_SERVERS = {}


def ask(target, request):
    """The JSON result of calling `target` ("module:function") with request, or None."""
    key = (os.getpid(), target)
    p = _SERVERS.get(key)
    if p is None or p.poll() is not None:
        import jsonpath

        repo = os.path.dirname(os.path.dirname(os.path.realpath(jsonpath.__file__)))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = (
            f"import sys; sys.path[:0] = [{here!r}, {repo!r}]; "
            f"from vp import pristine; pristine.serve({target!r})"
        )
        p = subprocess.Popen([sys.executable, "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        _SERVERS[key] = p
    p.stdin.write(json.dumps(request) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the server of pristine results has died")
    return json.loads(line)


def serve(target):
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)
    mod, fn = target.split(":")
    fn = getattr(importlib.import_module(mod), fn)
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                resource.setrlimit(resource.RLIMIT_CPU, (5, 5))
                out = json.dumps(fn(json.loads(line))) + "\n"
                data = out.encode()
                while data:
                    data = data[os.write(1, data):]
                code = 0
            except BaseException:  # noqa: BLE001
                pass
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if status:
            os.write(1, b"null\n")
