"""Runs analysis jobs in forked processes with a deadline each; results are plain data."""
import multiprocessing as mp
import os
import sys
import time
import traceback

CTX = mp.get_context("fork")


def _child(fn, args, w):
    sys.setrecursionlimit(60000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        try:
            out.append(("ok", fn(*args)))
        except BaseException as ex:
            out.append(("err", "%s: %s" % (type(ex).__name__, ex), traceback.format_exc()[-3000:]))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        w.send(out[0])
        w.close()
    finally:
        os._exit(0)


def run(jobs, limit=240, total=780, par=None):
    """jobs: [(name, fn, args)] -> {name: ("ok", value) | ("err", text, trace) | ("time",)}"""
    par = par or max(2, (os.cpu_count() or 4))
    t0 = time.time()
    todo = list(jobs)
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < par:
            name, fn, args = todo.pop(0)
            if time.time() - t0 > total:
                res[name] = ("time",)
                continue
            r, w = CTX.Pipe(False)
            p = CTX.Process(target=_child, args=(fn, args, w))
            p.start()
            w.close()
            live[name] = (p, r, time.time())
        done = []
        mp.connection.wait([r for p, r, t in live.values()], 1.0)
        for name, (p, r, t) in live.items():
            if r.poll(0):
                try:
                    res[name] = r.recv()
                except EOFError:
                    res[name] = ("err", "the analysis process ended", "")
                done.append(name)
            elif time.time() - t > limit or time.time() - t0 > total:
                p.kill()
                res[name] = ("time",)
                done.append(name)
        for name in done:
            p, r, t = live.pop(name)
            r.close()
            p.join(5)
            if p.is_alive():
                p.kill()
    return res
