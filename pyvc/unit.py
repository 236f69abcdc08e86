"""Running verification units (one per function contract / case) in parallel."""
import ctypes
import os
import signal
import time
import traceback
import multiprocessing as mp
from . import core, interp as _interp
from .core import Ctx, set_vc, Unsupported, PyRaise, LoopCarried, S

ROOT = os.environ.get('METSIM_REPO', '/repo')


class H:
    """what a contract sees"""
    def __init__(self, c):
        self.c = c
        self.it = _interp.Interp(ROOT)
        self.raised = None
        self.keep = None        # only clauses whose name matches are proved

    def fn(self, mod, name):
        m = self.it.load('metsim.' + mod if mod else 'metsim')
        if name not in m.ns:
            raise Unsupported('%s.%s does not exist' % (mod, name))
        v = m.ns[name]
        if isinstance(v, _interp.Poison):
            raise Unsupported(v.why)
        return v

    def call(self, f, *a, **k):
        """call; an escaping exception is a violated obligation"""
        try:
            return self.it.call(f, list(a), k)
        except PyRaise as e:
            self.c.obligation('%s does not raise (%s at %s)' % (getattr(f, 'name', f), e, self.c.where), False, 'safety')
            raise core.PathAbort()

    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            return self.it.call(f, list(a), k), None
        except PyRaise as e:
            return None, e

    def arr(self, n, name, finite=True, dtype='f'):
        n = n if isinstance(n, tuple) else (n,)
        return _interp.c_fresh_array(n, name, dtype, finite)

    def dict(self, **k):
        return _interp.VDict(k)

    def idx(self, n, name='i'):
        i = self.c.int(name)
        self.c.assume((i >= 0) & (i < n))
        return i

    def prove(self, name, goal, **k):
        if self.keep is not None and not self.keep.search(name):
            return True
        return self.c.prove(name, goal, **k)

    def lemma(self, name, goal, **k):
        """proved first, then available to what follows"""
        return self.c.prove(name, goal, kind='lemma', **k)


def _result(c, status='ok', why=''):
    return {'unit': c.unit, 'status': status, 'why': why,
            'obligs': [dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend or '',
                            time=round(o.time or 0, 3), detail=(o.detail or '')[:2000],
                            model=o.model) for o in c.obligs],
            'functions': sorted(c.functions), 'assumed': sorted(c.assumed),
            'backends': c.backends, 'queries': c.queries, 'solver_time': c.solver_time,
            'paths': c.paths}


class Timeout(Exception):
    pass


def run_unit(name, fn, timeout_ms, seconds):
    c = Ctx(name, timeout_ms)
    set_vc(c)
    c.deadline = time.time() + seconds
    t_start = time.time()

    def alarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(seconds) + 30)
    try:
        c.run(lambda cc: fn(H(cc)))
        st, why = 'ok', ''
        if not any(o.kind in ('post', 'lemma') for o in c.obligs):
            st, why = 'empty', 'no postcondition was generated'
    except (Unsupported, LoopCarried) as e:
        st, why = 'unsupported', '%s (at %s)' % (e, c.where)
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    except Timeout:
        st, why = 'unsupported', 'time budget of the unit used up (at %s)' % c.where
    except RecursionError:
        st, why = 'unsupported', 'term too deep (at %s)' % c.where
    except ctypes.ArgumentError as e:     # the alarm went off inside the solver
        st, why = 'unsupported', 'time budget of the unit used up (at %s)' % c.where
    except Exception as e:          # an engine error is never a verdict
        st, why = 'error', ''.join(traceback.format_exception_only(type(e), e)).strip() + ' at ' + c.where
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    r = _result(c, st, why)
    r['wall'] = round(time.time() - t_start, 2)
    return r


_UNITS = {}


def _work(a):
    import sys
    sys.setrecursionlimit(20000)
    name, timeout_ms, seconds = a
    return run_unit(name, _UNITS[name], timeout_ms, seconds)


def run_units(units, timeout_ms=15000, seconds=120, procs=None, total=None):
    """units: list of (name, fn[, seconds])"""
    global _UNITS
    _UNITS = {u[0]: u[1] for u in units}
    assert len(_UNITS) == len(units), 'duplicate unit names'
    procs = procs or int(os.environ.get('PYVC_PROCS', '8'))
    jobs = [(u[0], timeout_ms, u[2] if len(u) > 2 else seconds) for u in units]
    if procs == 1 or len(jobs) == 1:
        return [_work(j) for j in jobs]
    ctx = mp.get_context('fork')
    out = {}
    t_end = time.time() + total if total else None
    with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=4) as pool:
        rs = [(j[0], pool.apply_async(_work, (j,))) for j in jobs]
        for name, r in rs:
            left = (t_end - time.time()) if t_end else None
            try:
                out[name] = r.get(max(1, left) if left is not None else None)
            except mp.TimeoutError:
                out[name] = {'unit': name, 'status': 'unsupported', 'why': 'time budget of the check used up',
                             'obligs': [], 'functions': [], 'assumed': [], 'backends': {}, 'queries': 0,
                             'solver_time': 0, 'paths': 0}
        pool.terminate()
    return [out[j[0]] for j in jobs]
