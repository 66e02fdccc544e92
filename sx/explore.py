"""Explores the paths of harnesses in parallel and confirms what they find on the real code."""
import collections
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

from . import ctx as C
from . import engine as E
from . import instrument as I
from . import state
from .server import jsonable

VERIF = I.VERIF
MEM = 3 << 30


class Server:
    """The unmodified code in a process of its own."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, "sx", "server.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL if not os.environ.get("SX_DEBUG") else None,
            env=env,
            text=True,
            bufsize=1,
            cwd="/tmp",
        )

    def run(self, harness, case, draws, seconds=20):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps([harness, case, draws, seconds]) + "\n")
        self.p.stdin.flush()
        ready, _, _ = select.select([self.p.stdout], [], [], seconds + 20)
        if not ready:
            self.stop()
            return {"status": "violation", "msg": "no answer within %d s" % (seconds + 20), "observed": []}
        line = self.p.stdout.readline()
        if not line:
            self.stop()
            return {"status": "violation", "msg": "the interpreter died", "observed": []}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def norm(x):
    return json.loads(json.dumps(jsonable(x)))


class Worker:
    def __init__(self, sample):
        self.eng = E.Engine()
        self.server = Server()
        self.sample = sample
        self.fns = {}
        self.last = None

    def fn(self, harness):
        f = self.fns.get(harness)
        if f is None:
            state.preload()
            mod, name = harness.split(":")
            f = self.fns[harness] = getattr(importlib.import_module("harness." + mod), name)
        return f

    def one(self, harness, case, prefix, alts, fresh, res):
        eng = self.eng
        if harness not in self.fns:
            try:
                self.fn(harness)  # imports come before the path, so that the state after them is known
            except Exception:
                pass  # raised again on the path
        eng.start(prefix, alts, fresh)
        I.Env.modules = {}
        I.Env.open = None
        I.Env.stdout = None
        c = C.SymCtx(eng)
        cand = None
        model = None
        try:
            self.fn(harness)(c, case)
            status = "ok"
        except E.PathAbort:
            status = "aborted"
        except E.Incomplete as e:
            status = "incomplete"
            res["why"]["incomplete: %s" % e] += 1
        except E.PathLimit as e:
            status, cand = "cand", "does not end: %s" % e
        except C.Violation as e:
            status, cand, model = "cand", e.msg, e.model
        except RecursionError:
            status, cand = "cand", "RecursionError"
        except Exception as e:
            status = "cand"
            tb = traceback.extract_tb(e.__traceback__)
            where = " < ".join("%s:%d %s" % (os.path.basename(x.filename), x.lineno, x.name) for x in tb[-4:][::-1])
            try:
                msg = str(e)
            except BaseException:
                msg = "?"
            cand = "%s: %s (%s)" % (type(e).__name__, msg, where)
        try:
            if status == "cand":
                m = model if model is not None else eng.current_model()
                draws = C.ev_draws(eng.draws, m)
                msg = norm(C.ev(cand, m))
                r = self.server.run(harness, case, draws)
                if r["status"] == "violation":
                    res["violations"].append({"harness": harness, "case": case, "draws": draws, "msg": r["msg"], "symbolic_msg": msg})
                else:
                    res["spurious"].append({"harness": harness, "case": case, "draws": draws, "msg": msg, "replay": r["status"] + " " + str(r["msg"])})
            elif status == "ok":
                res["sampled"] += 1
                if self.sample and (res["sampled"] % self.sample == 0 or res["paths"]["ok"] < 2):
                    m = eng.witness()
                    draws = C.ev_draws(eng.draws, m)
                    obs = norm(C.ev(c.observed, m))
                    r = self.server.run(harness, case, draws)
                    if r["status"] == "violation":
                        res["violations"].append({"harness": harness, "case": case, "draws": draws, "msg": r["msg"], "symbolic_msg": "(found while replaying a path)"})
                    elif r["status"] != "ok" or r["observed"] != obs:
                        res["mismatch"].append({"harness": harness, "case": case, "draws": draws, "symbolic": obs, "concrete": r})
                    else:
                        res["validated"] += 1
                        if len(res["samples"]) < 3:
                            res["samples"].append({"harness": harness, "case": case, "draws": draws, "observed": obs[:2]})
        except E.PathAbort:
            status = "aborted"
        except E.Incomplete as e:
            status = "incomplete"
            res["why"]["incomplete: %s" % e] += 1
        eng.finish()
        res["paths"][status] += 1
        if status != "aborted":
            res["by_harness"][harness] += 1
            if eng.conc:
                res["pinned"] += 1
                for k, n in eng.conc_why.items():
                    res["why"][k] += 1
        res["decisions"] += len(eng.choices)
        res["obligations"] += eng.obligations
        res["functions"] |= eng.functions
        res["maxdec"] = max(res["maxdec"], len(eng.choices))

    def task(self, harness, case, prefix, seconds):
        res = {
            "paths": collections.Counter(),
            "by_harness": collections.Counter(),
            "pinned": 0,
            "why": collections.Counter(),
            "violations": [],
            "spurious": [],
            "mismatch": [],
            "samples": [],
            "sampled": 0,
            "validated": 0,
            "decisions": 0,
            "obligations": 0,
            "functions": set(),
            "maxdec": 0,
        }
        eng = self.eng
        q0, s0, u0 = eng.queries, eng.solver_s, eng.unknowns
        end = time.time() + seconds
        fresh = True
        alts = [()] * len(prefix)
        left = []
        while True:
            self.one(harness, case, prefix, alts, fresh, res)
            fresh = False
            if time.time() > end or res["violations"]:
                left = [(harness, case, p) for p in eng.split()]
                break
            nxt = eng.next_path()
            if nxt is None:
                break
            prefix, alts = nxt
        res["queries"] = eng.queries - q0
        res["solver_s"] = eng.solver_s - s0
        res["unknowns"] = eng.unknowns - u0
        return res, left


def worker_main(conn, sample):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except (ValueError, OSError):
        pass
    for m in list(sys.modules):
        if m.split(".")[0] in ("harness", "sqlvalidator"):
            del sys.modules[m]
    I.install()
    w = Worker(sample)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            break
        if msg is None:
            break
        try:
            conn.send(("ok",) + w.task(*msg))
        except BaseException:
            conn.send(("err", traceback.format_exc(), []))
    w.server.stop()


def explore(tasks, deadline, jobs=None, sample=5, seed=1, stop_on_violation=True, progress=False):
    """tasks: list of (harness, case). Returns the merged result."""
    jobs = jobs or int(os.environ.get("SX_JOBS", "0")) or min(8, os.cpu_count() or 4)
    t0 = time.time()
    rng = random.Random(seed)
    queue = [(h, c, []) for h, c in tasks]
    rng.shuffle(queue)
    mpctx = multiprocessing.get_context("fork")
    workers = []
    for _ in range(jobs):
        a, b = mpctx.Pipe()
        p = mpctx.Process(target=worker_main, args=(b, sample), daemon=False)
        p.start()
        b.close()
        workers.append([p, a, None])
    total = {
        "paths": collections.Counter(), "by_harness": collections.Counter(), "pinned": 0, "why": collections.Counter(),
        "violations": [], "spurious": [], "mismatch": [], "samples": [], "sampled": 0, "validated": 0, "decisions": 0,
        "obligations": 0, "functions": set(), "maxdec": 0, "queries": 0, "solver_s": 0.0, "unknowns": 0,
    }
    errors = []
    per_task = collections.Counter()
    stop = False
    last = time.time()
    try:
        while True:
            now = time.time()
            idle = [w for w in workers if w[2] is None]
            busy = [w for w in workers if w[2] is not None]
            if now > deadline or stop:
                if not busy:
                    break
            else:
                for w in idle:
                    if not queue:
                        break
                    i = rng.randrange(len(queue))
                    queue[i], queue[-1] = queue[-1], queue[i]
                    t = queue.pop()
                    secs = 0.4 if len(queue) < 2 * jobs else 3.0
                    secs = max(0.1, min(secs, deadline - now))
                    w[1].send((t[0], t[1], t[2], secs))
                    w[2] = t
                busy = [w for w in workers if w[2] is not None]
                if not busy:
                    break
            ready = multiprocessing.connection.wait([w[1] for w in busy], timeout=5)
            for w in busy:
                if w[1] in ready:
                    try:
                        st, res, left = w[1].recv()
                    except (EOFError, OSError):
                        errors.append("worker died on %r" % (w[2],))
                        stop = True
                        w[2] = None
                        workers.remove(w)
                        continue
                    w[2] = None
                    if st == "err":
                        errors.append(res)
                        stop = True
                        continue
                    for k in ("paths", "by_harness", "why"):
                        total[k].update(res[k])
                    for k in ("pinned", "sampled", "validated", "decisions", "obligations", "queries", "solver_s", "unknowns"):
                        total[k] += res[k]
                    total["functions"] |= res["functions"]
                    total["maxdec"] = max(total["maxdec"], res["maxdec"])
                    for k in ("violations", "spurious", "mismatch", "samples"):
                        if len(total[k]) < 40:
                            total[k].extend(res[k])
                    queue.extend(left)
                    if res["violations"] and stop_on_violation:
                        stop = True
            if progress and time.time() - last > 5:
                last = time.time()
                print("  %.0fs queue=%d paths=%s viol=%d spur=%d mism=%d q=%d solver=%.0fs %s" % (
                    last - t0, len(queue), dict(total["paths"]), len(total["violations"]), len(total["spurious"]),
                    len(total["mismatch"]), total["queries"], total["solver_s"], dict(total["why"].most_common(4))), flush=True)
    finally:
        for w in workers:
            try:
                w[1].send(None)
                w[1].close()
            except (OSError, BrokenPipeError):
                pass
        end = time.time() + 15
        for w in workers:
            w[0].join(max(0.1, end - time.time()))
            if w[0].is_alive():
                w[0].kill()
    total["left"] = len(queue)
    total["errors"] = errors
    total["wall"] = time.time() - t0
    return total
