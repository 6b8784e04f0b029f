"""Check context: obligations, their discharge record, parallel execution."""
import os, sys, time, json, traceback, multiprocessing as mp
from . import prove
from .prove import *
from .exec import Executor, State, Infeasible, explore
from . import extract as X

class Ob:
    """one proof obligation and what happened to it"""
    def __init__(self, name, fn, status, backend='', secs=0.0, detail='', model=None):
        self.name = name; self.fn = fn; self.status = status; self.backend = backend; self.secs = secs
        self.detail = detail; self.model = model
    def row(self):
        d = dict(name=self.name, function=self.fn, status=self.status, backend=self.backend, secs=round(self.secs, 3))
        if self.status != 'proved': d['detail'] = self.detail
        return d

_TASKS = []
MAXFAIL = 4
def _runtask(i):
    name, f, args = _TASKS[i]
    t0 = time.time()
    for k in prove.STATS: prove.STATS[k] = 0
    obs = []; nf = 0
    try:
        for o in f(*args) or []:
            obs.append(o)
            if o.status == 'failed': nf += 1
            if nf >= MAXFAIL:
                obs.append(Ob(name, o.fn, 'skipped', 'vcgen', detail='remaining obligations of this task not attempted after %d failures' % nf)); break
    except Infeasible as e:
        obs += [Ob(name, '', 'failed', 'vcgen', detail='execution never returns normally: %s' % e)]
    except Unsupported as e:
        obs += [Ob(name, '', 'unsupported', 'vcgen', detail='outside the verifier: %s' % e)]
    except RecursionError as e:
        obs += [Ob(name, '', 'unsupported', 'vcgen', detail='outside the verifier: recursion')]
    except Exception as e:
        obs += [Ob(name, '', 'unsupported', 'vcgen', detail='verifier error: %s' % traceback.format_exc()[-1500:])]
    return obs, dict(prove.STATS), time.time() - t0

def parallel(tasks, procs=8, deadline=None):
    """tasks: list of (name, fn, args); fn yields Ob.  Forked workers; a task that exceeds the deadline is reported unsupported."""
    global _TASKS
    _TASKS = tasks
    res = []
    tot = {}
    if not tasks: return res, tot
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(procs, len(tasks)), maxtasksperchild=4)
    try:
        rs = [pool.apply_async(_runtask, (i,)) for i in range(len(tasks))]
        for i, r in enumerate(rs):
            left = max(1.0, deadline - time.time()) if deadline else None
            try:
                obs, st, dt = r.get(left)
            except mp.TimeoutError:
                obs, st = [Ob(tasks[i][0], '', 'unsupported', 'vcgen', detail='outside the verifier: time budget exhausted')], {}
            res += obs
            for k, v in st.items(): tot[k] = tot.get(k, 0) + v
    finally:
        pool.terminate()
    return res, tot

def outs(ex):
    o = {}
    for n, v, pc in ex.outs: o.setdefault(n, []).append(v)
    return o
