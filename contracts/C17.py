"""Antecedent windows: _aggregate_state through the state property."""
from .common import *
from pyvc.core import Unsupported, PyRaise, PathAbort
from . import model_contracts as mc

ASSUMPTIONS = ['xarray: concat joins along time in order, rolling(time=w).mean() is the mean of the w latest steps (missing for the first w-1), fields are matched by their labels',
               'calendar "standard"', 'machine arithmetic treated as real (the running-sum algorithm of the library rounds)']
DIMS = [('lat', 'lon'), ('hru',)]


def world(h, dims, start, good=True):
    c = h.c
    g = mc.Grid(h, dims, 1440, [])
    n = g.n
    sh = tuple(g.size[d] for d in dims)
    D = dict(prec=h.arr((n,) + sh, 'f_prec'), t_min=h.arr((n,) + sh, 'f_t_min'))
    rng_ = h.arr((n,) + sh, 'f_range')
    lo, r = D['t_min'].reader(), rng_.reader()
    D['t_max'] = Arr.new((n,) + sh, lambda i: add(lo(i), core.absval(r(i)) if good else r(i)), 'f')
    g.met.vars = {k: mc.DA(a, ('time',) + dims, g.index, k) for k, a in D.items()}
    St = {k: h.arr((90,) + sh, 's_' + k) for k in ('prec', 't_min', 't_max')}
    own = models.DTIndex(c.int('state_file_start'), 1440, 90)
    g.state.vars = {k: mc.DA(a, ('time',) + dims, own, k) for k, a in St.items()}
    g.state.index = own
    g.state.time = mc.DA(None, ('time',), own, 'time')
    g.D, g.S = D, St
    K = h.it.contracts
    K.pop('metsim.metsim.MetSim.state')
    asked = g.asked = []

    def read(it, fn, v):
        asked.append((v.get('params'), v.get('domain')))
        return g.state
    K['metsim.io.read_state'] = read
    g.ms.d['_state'] = None
    first, last = models.TS(g.index.at(0)), models.TS(g.index.at(sub(n, 1)))
    g.params.update(start=first if start == 'date' else start, stop=last if start == 'date' else start)
    return g


def windows(dims, start):
    def u(h):
        c = h.c
        g = world(h, dims, start)
        c.cover('record with t_min <= t_max')
        # the run's own dates, as derived from the forcing
        h.call(h.it.getattr(g.ms, '_validate_force_times'), force_times=g.met.time)
        for q, j in (('start', 0), ('stop', sub(g.n, 1))):
            p = g.params[q]
            h.prove('%s of the run is that of the record' % q, eq(p.m, g.index.at(j)) if isinstance(p, models.TS) else BT(False))
        for q, d in (('state_start', -90), ('state_stop', -1)):
            p = g.params[q]
            h.prove('%s is %d days before the start' % (q, -d), eq(p.m, add(g.index.at(0), 1440 * d)) if isinstance(p, models.TS) else BT(False))
        h.call(mc.Builtin(lambda: h.it.getattr(g.ms, 'state')))
        h.prove('the state is read once, for this run', BT(len(g.asked) == 1 and mc.same_value(g.asked[0][0], g.params) and g.asked[0][1] is g.domain))
        t = h.idx(g.n, 't')
        x = tuple(h.idx(g.size[d], d) for d in dims)
        v = g.met.vars
        for k in ('seasonal_prec', 'smoothed_dtr', 'dtr'):
            if k not in v or not isinstance(v[k], mc.DA) or v[k].dims != ('time',) + dims:
                raise Unsupported('%s of the run' % k)
            h.prove('%s has one value per day' % k, eq(v[k].arr.shape[0], g.n))

        def ext(S_, D_, j):
            return ite(cmp('<', j, 0), S_(add(90, j)), D_(j))
        pr = lambda j: ext(lambda q: g.S['prec'].at(q, *x), lambda q: g.D['prec'].at(q, *x), j)
        dt = lambda j: ext(lambda q: sub(g.S['t_max'].at(q, *x), g.S['t_min'].at(q, *x)), lambda q: sub(g.D['t_max'].at(q, *x), g.D['t_min'].at(q, *x)), j)
        win = lambda f, w: div(c.sums.range_sum(lambda j: core.toreal(f(j)), sub(t, w - 1), add(t, 1)), w)
        h.prove('seasonal precipitation is 365.25 times the mean of the day and the 89 before', eq(v['seasonal_prec'].arr.at(t, *x), mul(F('365.25'), win(pr, 90))))
        h.prove('smoothed range is the mean of the day and the 29 before', eq(v['smoothed_dtr'].arr.at(t, *x), win(dt, 30)))
        h.prove('the range of the day is its own', eq(v['dtr'].arr.at(t, *x), sub(g.D['t_max'].at(t, *x), g.D['t_min'].at(t, *x))))
        for k in ('seasonal_prec', 'smoothed_dtr', 'dtr'):
            h.prove('%s is never missing' % k, finite(v[k].arr.at(t, *x)))
        for k, a in g.D.items():
            h.prove('the forcing %s is unchanged' % k, eq(v[k].arr.at(t, *x), a.at(t, *x)))
        q = h.idx(90, 'q')
        h.prove('the state is unchanged', conj([eq(g.state.vars[k].arr.at(q, *x), a.at(q, *x)) for k, a in g.S.items()]))
    return u


def rejected(dims):
    def u(h):
        c = h.c
        g = world(h, dims, 'date', good=False)
        t = h.idx(g.n, 't')
        x = tuple(h.idx(g.size[d], d) for d in dims)
        c.assume(cmp('<', g.D['t_max'].at(t, *x), g.D['t_min'].at(t, *x)))
        c.points = [(t,) + x]
        c.cover('record with a day of t_max < t_min')
        h.call(h.it.getattr(g.ms, '_validate_force_times'), force_times=g.met.time)
        r, e = h.attempt(mc.Builtin(lambda: h.it.getattr(g.ms, 'state')))
        h.prove('rejected', BT(e is not None))
    return u


def units(tier):
    out = []
    for d in DIMS:
        s = '-'.join(d)
        for st in ('date', 'forcing'):
            out.append(('C17.windows.%s.%s' % (s, st), windows(d, st)))
        out.append(('C17.rejected.' + s, rejected(d)))
    return out
