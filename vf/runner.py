"""Runs proof tasks in parallel."""
import importlib
import multiprocessing as mp
import os
import threading
import time
import traceback
import z3
from . import build as B
from .irparse import Unsupported
from .sym import Dead
from . import prove
from . import t_des
from .prove import Result

_b = None
GRACE = 75


def one(t):
    modn, fn, args, units = t[:4]
    prove.SAFETY_ONLY = len(t) > 4 and t[4] == 'safety'
    t_des.OK_ONLY = len(t) > 4 and t[4] == 'support'
    t_des.TERM = len(t) > 4 and t[4] == 'term'
    res = Result((fn, args))
    prove.TASK_END[0] = time.time() + 240
    t0 = time.time()
    try:
        getattr(importlib.import_module(modn), fn)(_b, res, *args)
    except Unsupported as e:
        res.unsupported = str(e)[:300]
    except Dead:
        res.unsupported = 'no path returns'
    except Exception as e:
        res.unsupported = f'verifier error: {type(e).__name__}: {str(e)[:200]} {traceback.format_exc()[-600:]}'
    res.time = time.time() - t0
    if os.environ.get('VF_PROGRESS'):
        print(f'{res.time:7.1f} {res.task} p{res.proved} r{len(res.refuted)} u{len(res.unknown)} {str(res.unsupported)[:150]} {[x[0] for x in res.refuted[:2]]} {res.unknown[:2]}', flush=True)
    return res


def compile_units(b, units):
    errs = {}

    def go(u):
        try:
            b.ll(*u) if isinstance(u, tuple) else b.ll(u)
        except B.BuildError as e:
            errs[u] = str(e)
    for u in units:
        if not isinstance(u, tuple):
            b.prepare(u)
        else:
            b.prepare(u[0])
    ths = []
    sem = threading.Semaphore(8)

    def run(u):
        with sem:
            go(u)
    for u in units:
        th = threading.Thread(target=run, args=(u,))
        th.start()
        ths.append(th)
    for th in ths:
        th.join()
    return errs


def run(b, tasks, workers=8, deadline=None):
    """returns the list of Results, in the order of the tasks"""
    out = run1(b, tasks, workers, deadline)
    if any(r.refuted for r in out):
        return out
    for _ in range(3):
        again = t_des.agree(out, tasks)
        if not again:
            break
        for (i, _t), r in zip(again, run1(b, [t for _, t in again], workers, deadline)):
            out[i] = r
    for i, _t in t_des.agree(out, tasks):
        out[i].unknown.append('the records of the message need different loop invariants')
    return out


def run1(b, tasks, workers=8, deadline=None):
    global _b
    _b = b
    out = []
    if not tasks:
        return out
    grace = None       # once an obligation failed, the other tasks get this long
    out = [None] * len(tasks)
    ctx = mp.get_context('fork')
    with ctx.Pool(min(workers, len(tasks)), maxtasksperchild=8) as pool:
        it = [pool.apply_async(one, (t,)) for t in tasks]
        left = set(range(len(tasks)))
        while left:
            for i in sorted(left):
                if it[i].ready():
                    out[i] = it[i].get()
                    left.discard(i)
                    if out[i].refuted and grace is None:
                        grace = time.time() + GRACE
            now = time.time()
            if (deadline is not None and now > deadline) or (grace is not None and now > grace):
                break
            if left:
                time.sleep(0.05)
        for i in left:
            x = Result((tasks[i][1], tasks[i][2]))
            x.unsupported = 'not waited for after an obligation failed' if grace is not None else 'time limit of the check'
            out[i] = x
        pool.terminate()
    return out
