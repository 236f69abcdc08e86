"""Sub-daily shortwave: each day's energy, spread over the day by the radiation curve of that calendar day."""
from .common import *

ASSUMPTIONS = ['rows of tiny_rad_fract sum to one on days with sun (C08); proved here: the energy is the daily energy times that sum']


def local(ts, method, averaging=None):
    def u(h):
        c = h.c
        n = c.int('n_days')
        c.assume(n >= 1)
        k = 1440 // ts
        sw, dl = h.arr(n, 'sw_rad'), h.arr(n, 'daylength')
        doy = h.arr(n, 'day_of_year', dtype='i')
        tiny = h.arr((366, 2880), 'tiny_rad_fract')
        for a in (sw, dl):
            nonneg(h, a)
        forall(h, tiny, lambda r, j, x: cmp('>=', x, 0))
        forall(h, doy, lambda i, x: land(cmp('>=', x, 1), cmp('<=', x, 366)))
        d, j = h.idx(n, 'day'), h.idx(k, 'step')
        y = sub(doy.at(d), 1)
        o = [sw.at(d), dl.at(d), tiny.at(y, 7)]
        p = dict(time_step=ts, method=method, utc_offset=False, lon=c.real('lon'))
        if averaging is not None:
            p['sw_averaging'] = averaging
        r = models.to_arr(h.it, h.call(h.fn('disaggregate', 'shortwave'), sw, dl, doy, tiny, h.dict(**p)))
        h.prove('one value per step', eq(r.shape[0], mul(n, k)))
        c.cover('shortwave')
        v = r.at(add(mul(d, k), j))
        chunk = c.sums.range_sum(lambda q: toreal(tiny.at(y, add(mul(2 * ts, j), q))), 0, 2 * ts)
        row = c.sums.range_sum(lambda q: toreal(tiny.at(y, q)), 0, 2880)
        energy = mul(o[0], o[1])
        h.prove('step value: daily energy x the fraction of the radiation of the day in the step', eq(mul(v, ts * 60), mul(energy, chunk)))
        h.prove('not negative', cmp('>=', strip(v), 0))
        w = r.at
        tot = c.sums.range_sum(lambda q: toreal(w(add(mul(d, k), q))), 0, k)
        h.prove('day total times step length = daily flux times averaging period (times the row sum)', eq(mul(tot, ts * 60), mul(energy, row)))
        h.prove('arguments unchanged', conj([eq(a, b) for a, b in zip((sw.at(d), dl.at(d), tiny.at(y, 7)), o)]))
    return u


def units(tier):
    out = []
    for ts in STEPS:
        for nm, m, av in (('mtclim', 'mtclim', None), ('passthrough', 'passthrough', None), ('daylight', 'passthrough', 'daylight')):
            out.append(('C02.shortwave.%s.ts%d' % (nm, ts), local(ts, m, av)))
    return out
