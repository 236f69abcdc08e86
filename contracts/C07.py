"""UTC mode: the local minute series rolled by the longitude's share of a day, then aggregated."""
from .common import *
from . import C03


def offset(lon, per_day):
    return toint(mul(div(lon, 360), per_day))


def rolled(ts, name, kind=None):
    """the UTC result at `ts` against the local result at one minute"""
    def u(h):
        c = h.c
        n = c.int('n_days')
        c.assume(n >= 1)
        k, N = 1440 // ts, mul(1440, n)
        lon = c.real('lon')
        c.assume(land(lon >= -180, lon <= 180))
        f = h.fn('disaggregate', name)
        P = lambda utc: h.dict(utc_offset=utc, lon=lon, theta_s=0, time_step=ts, prec_type=kind)
        if name == 'prec':
            a = daily(h, n, 'prec')
            nonneg(h, a)
            t0 = daily(h, n, 't_min', index=a.index)
            pk, du = daily(h, n, 't_pk', index=a.index), daily(h, n, 'dur', index=a.index)
            forall(h, pk, lambda i, x: land(x >= 0, x <= 1439))
            forall(h, du, lambda i, x: x >= 2)
            call = lambda t, utc: h.call(f, a, t0, t, P(utc), pk, du)
        else:
            a = h.arr(n, name)
            call = lambda t, utc: h.call(f, a, t, P(utc))
        c.sum_signs = False         # that no value is missing is C01/C05
        minute = models.to_arr(h.it, call(1, False))
        c.assume(eq(minute.shape[0], N))            # C01/C05: one value per minute
        r = models.to_arr(h.it, call(ts, True))
        h.prove('one value per step', eq(r.shape[0], mul(n, k)))
        c.cover(name)
        i = h.idx(mul(n, k))
        off = offset(lon, 1440)
        s = c.sums.range_sum(lambda q: toreal(minute.at(core.mod(add(add(mul(ts, i), q), off), N))), 0, ts)
        h.prove('the local minute series rolled earlier by the whole minutes of longitude, then aggregated',
                same(r.at(i), s if name == 'prec' else div(s, ts)))
    return u


def shortwave(ts):
    def u(h):
        c = h.c
        n = c.int('n_days')
        c.assume(n >= 1)
        k = 1440 // ts
        lon = c.real('lon')
        c.assume(land(lon >= -180, lon <= 180))
        sw, dl = h.arr(n, 'sw_rad'), h.arr(n, 'daylength')
        doy = h.arr(n, 'day_of_year', dtype='i')
        tiny = h.arr((366, 2880), 'tiny_rad_fract')
        forall(h, doy, lambda i, x: land(cmp('>=', x, 1), cmp('<=', x, 366)))
        c.sum_signs = False
        r = models.to_arr(h.it, h.call(h.fn('disaggregate', 'shortwave'), sw, dl, doy, tiny,
                                       h.dict(time_step=ts, method='mtclim', utc_offset=True, lon=lon)))
        h.prove('one value per step', eq(r.shape[0], mul(n, k)))
        c.cover('shortwave')
        d, j = h.idx(n, 'day'), h.idx(k, 'step')
        off = offset(lon, 2880)

        def term(q):
            m = add(mul(2 * ts, j), q)
            a = core.mod(add(add(mul(2880, sub(doy.at(d), 1)), m), off), 366 * 2880)
            b = core.mod(add(add(mul(2880, d), m), off), mul(2880, n))
            e = core.floordiv(b, 2880)
            return mul(tiny.at(core.floordiv(a, 2880), core.mod(a, 2880)), div(mul(sw.at(e), dl.at(e)), ts * 60))
        s = c.sums.range_sum(lambda q: toreal(term(q)), 0, 2 * ts)
        h.prove('daily totals and the annual radiation curve both rolled by whole radiation steps', eq(r.at(add(mul(k, d), j)), s))
    return u


def units(tier):
    out = [('C07.set_min_max_hour', C03.times(True))]
    for ts in STEPS:
        out.append(('C07.wind.ts%d' % ts, rolled(ts, 'wind')))
        out.append(('C07.tskc.ts%d' % ts, rolled(ts, 'tskc')))
        for kind in ('uniform', 'triangle', 'mix'):
            out.append(('C07.prec.%s.ts%d' % (kind, ts), rolled(ts, 'prec', kind)))
        out.append(('C07.shortwave.ts%d' % ts, shortwave(ts)))
    return out
