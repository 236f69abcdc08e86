"""mtclim.run: the daily state it returns is mutually consistent."""
from .common import *
from .daily_contracts import world
from pyvc.core import Unsupported

ASSUMPTIONS = ['the daily estimates by their contracts (C09)',
               'no dewpoint iterate is exactly -237.3 C or so large that a real number is no model of it (machine arithmetic)',
               'partial correctness: what holds if the iteration ends (C24 is not claimed)']


def run(cloud):
    def u(h):
        c = h.c
        c.sum_signs = 'square'
        n, D, df, params, E = world(h, ('wind',), lw_cloud=cloud)
        c.cover('mtclim.run')
        f = E.f
        r = h.call(h.fn('methods.mtclim', 'run'), df, params)
        if not isinstance(r, models.DataFrame):
            raise Unsupported('result of run')
        i = h.idx(n)
        col = lambda q: models.to_arr(h.it, r.col(q)).at(i)
        d = lambda q: D[q].at(i)
        h.prove('one row per day', eq(r.nrows(), n))
        for q in ('t_day', 'tfmax', 'tskc', 'tdew', 'vapor_pressure', 'shortwave', 'pet'):
            h.prove('column %s is there' % q, BT(q in r.cols))
        h.prove('day temperature is the estimate', eq(col('t_day'), f['t_day'](d('t_min'), d('t_max'))))
        h.prove('transmittance is the estimate', eq(col('tfmax'), f['tfmax'](d('dtr'), d('smoothed_dtr'), d('prec'))))
        h.prove('cloud fraction is the estimate', eq(col('tskc'), f['tskc'](f['tfmax'](d('dtr'), d('smoothed_dtr'), d('prec')))))
        h.prove('vapor pressure is saturation at the dewpoint', eq(col('vapor_pressure'), f['vapor_pressure'](col('tdew'))))
        h.prove('shortwave belongs to that vapor pressure', eq(col('shortwave'), f['shortwave'](col('tfmax'), col('vapor_pressure'), d('tt_max'), d('potrad'))))
        h.prove('evapotranspiration belongs to that shortwave', eq(col('pet'), f['pet'](col('shortwave'), col('t_day'), d('daylength'))))
        for q in ('t_min', 't_max', 'prec', 'wind', 'dtr', 'smoothed_dtr', 'daylength', 'potrad', 'tt_max'):
            h.prove('%s returned unchanged' % q, eq(col(q), S(base_decl(D[q])(T(i)))))
        # the preceding iterate: what the vapor pressure behind the last dewpoint estimate was taken at
        td = max([k for k, x in enumerate(E.log) if x[0] == 'tdew'] or [-1])
        vp = [k for k, x in enumerate(E.log) if x[0] == 'vapor_pressure' and k < td]
        if td < 0 or not vp:
            raise Unsupported('dewpoint iteration without its estimates')
        prev = lambda j: E.log[vp[-1]][1][0]((j,))
        x = prev(i)
        step = f['tdew'](f['pet'](f['shortwave'](f['tfmax'](d('dtr'), d('smoothed_dtr'), d('prec')), f['vapor_pressure'](x), d('tt_max'), d('potrad')),
                                  f['t_day'](d('t_min'), d('t_max')), d('daylength')), d('t_min'), d('seasonal_prec'), d('dtr'))
        h.prove('dewpoint is the estimate of the preceding iterate', eq(col('tdew'), step))
        rd = models.to_arr(h.it, r.col('tdew')).at
        ss = c.sums.range_sum(lambda j: toreal(power(sub(strip(rd(j)), strip(prev(j))), 2)), 0, n)
        h.prove('the last two iterates differ by at most the tolerance (root mean square)', cmp('<=', uf('sqrt', div(ss, n)), params['tdew_tol']))
    return u


def units(tier):
    return [('C10.run.' + k, run(k)) for k in ('default', 'cloud_deardorff', 'CLOUD_DEARDORFF')]
