"""passthrough.run: supplied variables are used as they are, missing ones get the mtclim estimate."""
import itertools
from .common import *
from .daily_contracts import world
from . import cell_contracts as cell
from . import C22
from pyvc.core import Unsupported

ASSUMPTIONS = cell.ASSUMPTIONS + ['the daily estimates by their contracts (C09)']
OPT = ['t_day', 'tfmax', 'tskc', 'pet', 'tdew', 'vapor_pressure']


def run(given, cloud):
    def u(h):
        c = h.c
        c.sum_signs = False
        n, D, df, params, E = world(h, ('shortwave', 'wind') + tuple(given), lw_cloud=cloud)
        c.cover('passthrough.run')
        f = E.f
        r = h.call(h.fn('methods.passthrough', 'run'), df, params)
        if not isinstance(r, models.DataFrame):
            raise Unsupported('result of run')
        i = h.idx(n)
        d = lambda q: D[q].at(i)
        h.prove('one row per day', eq(r.nrows(), n))
        for q in OPT + ['shortwave', 'wind']:
            h.prove('column %s is there' % q, BT(q in r.cols))
        col = lambda q: models.to_arr(h.it, r.col(q)).at(i)
        for q in sorted(D):
            if q != 'seasonal_prec':
                h.prove('supplied %s is used unchanged' % q, eq(col(q), S(base_decl(D[q])(T(i)))))
        est = {'t_day': lambda: f['t_day'](d('t_min'), d('t_max')),
               'tfmax': lambda: f['tfmax'](d('dtr'), d('smoothed_dtr'), d('prec')),
               'tskc': lambda: f['tskc'](col('tfmax')),
               'pet': lambda: f['pet'](d('shortwave'), col('t_day'), d('daylength')),
               'tdew': lambda: f['tdew'](col('pet'), d('t_min'), d('seasonal_prec'), d('dtr')),
               'vapor_pressure': lambda: f['vapor_pressure'](col('tdew'))}
        for q in OPT:
            if q not in given:
                h.prove('missing %s is the estimate from the values in use' % q, eq(col(q), est[q]()))
    return u


def required(h):
    """without shortwave the run is refused"""
    n, D, df, params, E = world(h, tuple(OPT))
    h.c.cover('no shortwave')
    r, e = h.attempt(h.fn('methods.passthrough', 'run'), df, params)
    h.prove('shortwave must be supplied', BT(e is not None))


def units(tier):
    out = [('C11.shortwave_required', required)]
    for k in range(len(OPT) + 1):
        for g in itertools.combinations(OPT, k):
            out.append(('C11.run.' + ('+'.join(g) or 'none'), run(g, ['cloud_deardorff', 'default'][k % 2])))
    for o in (dict(), dict(averaging=''), dict(method='passthrough'), dict(method='passthrough', averaging=''), dict(method='passthrough', averaging='daylight'),
              dict(averaging='daylight'), dict(method='passthrough', ending=True, text=True), dict(ending=True, text=True)):
        out.append(('C11.daily_output.' + ('.'.join('%s=%s' % x for x in sorted(o.items())) or 'plain'), cell.unit(1440, ('flux',), **o)))
    for o in (dict(), dict(averaging='daylight')):
        out.append(('C11.subdaily_averaging.' + (o.get('averaging') or 'whole_day'), C22.one(60, method='passthrough', **o)))
    return out
