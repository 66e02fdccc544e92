"""Runs harnesses on the unmodified code with concrete values (one request per line on stdin)."""
import importlib
import json
import os
import signal
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run(harness, case, draws, seconds=20):
    from sx import ctx as C
    from sx import state

    state.preload()
    mod, fn = harness.split(":")
    f = getattr(importlib.import_module("harness." + mod), fn)
    if state.current is None:
        state.current = state.Snapshot()
    state.fresh()
    c = C.ConcCtx(draws)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    msg = ""
    try:
        f(c, case)
        status = "ok"
    except C.Violation as e:
        status, msg = "violation", jsonable(e.msg)
    except C.Reject as e:
        status, msg = "reject", str(e)
    except Timeout:
        status, msg = "violation", "no answer within %d s" % seconds
    except RecursionError:
        status, msg = "violation", "RecursionError"
    except Exception as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join("%s:%d %s" % (os.path.basename(x.filename), x.lineno, x.name) for x in tb[-3:][::-1])
        status, msg = "violation", "%s: %s (%s)" % (type(e).__name__, e, where)
    finally:
        signal.alarm(0)
    return {"status": status, "msg": msg, "observed": jsonable(c.observed)}


def jsonable(x):
    if x is None or isinstance(x, (str, int, bool, float)):
        return x
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(jsonable(a)): jsonable(b) for a, b in x.items()}
    if isinstance(x, (set, frozenset)):
        return [jsonable(y) for y in x]
    return str(x)


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    for line in sys.stdin:
        r = run(*json.loads(line))
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    main()
