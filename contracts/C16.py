"""Set-up validation: raises exactly for the invalid set-ups, names every problem, comes before anything else."""
from .common import *
import itertools
from pyvc.core import Unsupported, PyRaise, PathAbort
from pyvc.interp import Builtin, SymSeq, VList, VDict
from . import model_contracts as mc

ASSUMPTIONS = ['an option value or output name in no table stands for every such one']
LW = ['default', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso', 'prata']
CLOUD = ['default', 'cloud_deardorff']
SUBV = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure', 'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']
DAYV = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet', 'wind', 'daylength']
VALID = [1440] + [d for d in range(1, 361) if 1440 % d == 0]
SPELL = [str, str.upper, str.title, lambda s: ''.join(ch.upper() if i % 2 else ch for i, ch in enumerate(s))]
PIECES = ('forcing', 'forcing_vars', 'out_vars', 't_min', 't_max', 'prec', 'out_dir', 'forcing_fmt')


def model(h, ts, outs=('prec',), drop=(), how='', **opt):
    if getattr(h.it, 'tokens', None) is None:
        h.it.tokens = []
    p = dict(out_dir='/out', out_prefix='pre', forcing_fmt='netcdf', forcing='/in/forcing.nc', out_precision='f4', lw_type='prata', lw_cloud='cloud_deardorff',
             forcing_vars=h.dict(t_min='t_min', t_max='t_max', prec='prec'), num_workers=1, scheduler='threading')
    p.update(opt)
    g = mc.Grid(h, ('lat', 'lon'), 60, [(v, v, '') for v in outs], p)
    h.it.contracts.pop('metsim.metsim.MetSim._validate_setup')
    g.params['time_step'] = ts
    bad = []
    for d in drop:
        if d in ('t_min', 't_max', 'prec'):
            g.met.vars.pop(d)
            bad.append((d,))
        elif d in ('forcing_vars', 'out_vars'):
            if how == 'absent':
                g.params.pop(d)
            else:
                g.params[d] = h.dict()
            bad.append(('output',) if d == 'out_vars' else ('forcing',))
        else:
            if how == 'absent':
                g.params.pop(d)
            else:
                g.params[d] = '' if how != 'none' or d == 'forcing' else None
            bad.append((d,))
    return g, bad


def judge(h, g, bad, what):
    """accepted exactly when nothing is wrong"""
    before = {k: v for k, v in g.params.items()}
    r, e = h.attempt(h.it.getattr(g.ms, '_validate_setup'))
    if bad:
        h.prove('%s: rejected' % what, BT(e is not None))
        if e is not None:
            msg = ' '.join(map(str, e.eargs)).lower()
            for ws in bad:
                h.prove('%s: the exception mentions %s' % (what, ' '.join(ws)), BT(all(w.lower() in msg for w in ws)))
    else:
        h.prove('%s: accepted' % what + ('' if e is None else ' (%s)' % e), BT(e is None))
    return e


def far(sign):
    """any step below 1, any step above a day"""
    def u(h):
        c = h.c
        ts = c.int('time_step')
        c.assume(cmp('<', ts, 1) if sign < 0 else cmp('>', ts, 1440))
        c.cover('time step out of range')
        for outs in (('prec',), ('temp', 't_min')):
            g, bad = model(h, ts, outs)
            bad.append(('time step', h.it.token(ts)))
            for v in outs:
                if v not in SUBV:
                    bad.append((v,))
            judge(h, g, bad, 'outputs %s' % '+'.join(outs))
    return u


def steps(lo, hi):
    def u(h):
        h.c.cover('every step from %d to %d' % (lo, hi - 1))
        for ts in range(lo, hi):
            for t in (ts, str(ts)):
                g, bad = model(h, t)
                if ts not in VALID:
                    bad.append(('time step', str(ts)))
                judge(h, g, bad, 'step %r' % t)
    return u


def outputs(ts):
    def u(h):
        h.c.cover('every output variable')
        ok = DAYV if ts == 1440 else SUBV
        for v in sorted(set(SUBV + DAYV)) + ['no such variable', 'Temp', '']:
            for t in (ts, str(ts)):
                g, bad = model(h, t, (v,))
                if v not in ok:
                    bad.append(('output', v))
                judge(h, g, bad, 'output %r at step %r' % (v, t))
        for pair in itertools.combinations(sorted(set(SUBV + DAYV)), 2):
            g, bad = model(h, ts, pair)
            bad += [('output', v) for v in pair if v not in ok]
            judge(h, g, bad, 'outputs %s at step %d' % ('+'.join(pair), ts))
        g, bad = model(h, ts, ok)
        judge(h, g, bad, 'every output at step %d' % ts)
    return u


NONE = object()


def options(h):
    h.c.cover('every option')
    for f in SPELL:
        for lw in LW:
            for cl in CLOUD:
                for pr in ('f4', 'f8'):
                    g, bad = model(h, 60, lw_type=f(lw), lw_cloud=f(cl), out_precision=pr)
                    judge(h, g, bad, '%s %s %s' % (f(lw), f(cl), pr))
    for k, vs in (('lw_type', ['no such type', 'prat', '', None, 1, 'cloud_deardorff']), ('lw_cloud', ['no such type', 'deardorff', 'tva', '', None, 0]),
                  ('out_precision', ['no such type', 'f2', 'f16', 'F8', '', None, 8, 'double'])):
        for v in vs:
            g, bad = model(h, 60, **{k: v})
            judge(h, g, bad + [(k,)], '%s=%r' % (k, v))
        g, bad = model(h, 60)
        g.params.pop(k)
        judge(h, g, bad + [(k,)], '%s absent' % k)


def pieces(how, ts):
    def u(h):
        h.c.cover('every combination of missing pieces')
        for r in range(len(PIECES) + 1):
            for drop in itertools.combinations(PIECES, r):
                if how == 'absent' and ts == 'all wrong' and r == 0:
                    pass
                wrong = ts == 'all wrong'
                g, bad = model(h, 7 if wrong else ts, ('prec', 'pet') if wrong else ('prec',), drop, how,
                               **(dict(lw_type='x', lw_cloud='y', out_precision='z') if wrong else {}))
                if wrong:
                    bad += [('time step', '7'), ('lw_type',), ('lw_cloud',), ('out_precision',)]
                    if 'out_vars' not in drop:
                        bad.append(('output', 'pet'))
                judge(h, g, bad, 'without %s (%s)' % ('+'.join(drop) or 'nothing', how))
    return u


def first(method):
    """validation comes before any file, any chunk, any cell"""
    def u(h):
        c = h.c
        h.it.tokens = []
        g = mc.Grid(h, ('lat', 'lon'), 60, [('prec', 'prec', 'mm timestep-1')], dict(out_dir='/out', out_prefix='pre', num_workers=1, scheduler='threading'))
        log = []
        q = 'metsim.metsim.'
        K = h.it.contracts

        def bad(it, fn, v):
            log.append('validation')
            raise PyRaise(Exception, ('invalid',))
        K[q + 'MetSim._validate_setup'] = bad
        note = lambda n: (lambda it, fn, v: log.append(n))
        for n in ('MetSim.setup_netcdf_output', 'MetSim.setup_output', 'wrap_run_slice', 'wrap_run_cell', 'MetSim.convert_monthly_param', 'MetSim.write_chunk'):
            K[q + n] = note(n)
        m = h.it.load('metsim.metsim')
        m.ns['os'] = mc.module('os', makedirs=Builtin(lambda *a, **k: log.append('makedirs')), path=h.it.modeled['os.path'])
        m.ns['dask'] = mc.module('dask', persist=Builtin(lambda *a, **k: log.append('jobs')), compute=Builtin(lambda *a, **k: log.append('jobs')))
        g.ms.d['_times'] = VList([models.DTIndex(g.index.at(0), 60, mul(24, g.n))])
        g.ms.d['progress_bar'] = Builtin(lambda x: x)
        c.cover('an invalid set-up')
        r, e = h.attempt(h.it.getattr(g.ms, method))
        h.prove('an invalid set-up stops %s' % method, BT(e is not None and 'validation' in log))
        h.prove('nothing is computed or written before validation', BT([x for x in log if x != 'makedirs'] == ['validation']))
    return u


def units(tier):
    out = [('C16.step.below_one', far(-1)), ('C16.step.above_a_day', far(1))]
    B = 60
    out += [('C16.step.%d-%d' % (a, min(a + B, 1441) - 1), steps(a, min(a + B, 1441))) for a in range(1, 1441, B)]
    out += [('C16.outputs.ts%d' % ts, outputs(ts)) for ts in VALID]
    out.append(('C16.options', options))
    out += [('C16.pieces.%s.%s' % (how or 'empty', ts), pieces(how, ts)) for how in ('', 'absent', 'none') for ts in (60, 1440, 'all wrong')]
    out += [('C16.before_all.' + m, first(m)) for m in ('run',)]
    return out
