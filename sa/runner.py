"""Running one property check over several processes."""
from __future__ import annotations

import gc
import importlib
import multiprocessing as mp
import os
import sys
import time
import traceback

from .ctx import Ctx, Missing, UNDECIDED, VIOLATED
from .shrink import overlays

MODULES = ("props1", "props2", "props3", "props4", "props5", "props6")


def properties():
    out = {}
    for m in MODULES:
        try:
            out.update(importlib.import_module("sa." + m).PROPS)
        except ModuleNotFoundError as e:
            if m not in str(e):
                raise
    return out


def work(C, fn, k, n):
    gc.freeze()
    gc.set_threshold(400000, 20, 100)       # terms live for the whole run: collecting often is a waste
    C.shard = (k, n)
    C.t0 = time.time()
    err = None
    sys.setrecursionlimit(30000)
    try:
        fn(C)
    except Missing as e:
        err = ("missing", str(e))
    except Exception:
        err = ("crash", traceback.format_exc()[-1500:])
    return C.rows, C.functions, C.calls, C.points_used, err


def _child(C, fn, k, n, conn):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(work(C, fn, k, n)))
    t.start()
    t.join()
    conn.send(box[0] if box else ([], set(), 0, 0, ("crash", "worker died")))
    conn.close()


def run(prop, tier="quick", seed=1, repo="/repo", jobs=None, budget=600):
    """(rows, functions, calls, points, errors, seconds)"""
    t0 = time.time()
    fn = properties()[prop]
    scaled = overlays(repo)
    out = one(prop, fn, tier, seed, repo, jobs, budget, None, bool(scaled))
    rows, functions, calls, points, errs, _ = out
    for label, over in scaled:
        if any(r["verdict"] == VIOLATED for r in rows) or time.time() - t0 > budget:
            break
        more = one(prop, fn, tier, seed, repo, jobs, min(budget / 2, 200), over, True)
        for r in more[0]:
            if r["verdict"] != UNDECIDED:
                r["config"] += f" (constants of the source scaled down: {label})"
                rows.append(r)
        functions |= more[1]
        calls, points = calls + more[2], points + more[3]
    return rows, functions, calls, points, errs, time.time() - t0


def one(prop, fn, tier, seed, repo, jobs, budget, over, scaled):
    t0 = time.time()
    try:
        C = Ctx(prop, tier, seed, repo, budget, over)
    except Exception:
        if over is None:
            raise
        return [], set(), 0, 0, [], 0
    C.scaled = scaled
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    procs = []
    for k in range(jobs):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(C, fn, k, jobs, b))
        p.start()
        b.close()
        procs.append((p, a))
    rows, functions, calls, points, errs = [], set(), 0, 0, []
    for k, (p, a) in enumerate(procs):
        try:
            r, f, c, n, e = a.recv()
            rows += r
            functions |= f
            calls += c
            points += n
            if e:
                errs.append(e)
        except EOFError:
            errs.append(("crash", f"worker {k} died"))
        p.join()
    return rows, functions, calls, points, errs, time.time() - t0
