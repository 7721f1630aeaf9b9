"""
Runs scenarios against the unmodified code, using the interpreter of the
project. stdin: JSON list of scenarios, stdout: JSON list of results.
"""

import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback


def one(mod, sc):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            tmp = tempfile.mkdtemp(prefix="vreplay")
            out = sys.stdout
            sys.stdout = sys.stderr
            try:
                violated, detail, *rest = mod.replay(sc, tmp)
                res = {"violated": violated, "detail": str(detail)}
                if rest:
                    res.update(rest[0])
            except BaseException:
                res = {"violated": None, "detail": traceback.format_exc()}
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
                sys.stdout = out
            with os.fdopen(w, "w") as fp:
                json.dump(res, fp)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    if not data:
        return {"violated": None, "detail": "no result"}
    return json.loads(data)


def main():
    mod = importlib.import_module(f"replay.{sys.argv[1]}")
    scenarios = json.load(sys.stdin)
    out = [one(mod, sc) for sc in scenarios]
    print(json.dumps(out))


if __name__ == "__main__":
    main()
