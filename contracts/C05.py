"""wind / tskc: constant within the day (local), bounded and mean-preserving (UTC)."""
from .common import *

FN = [('wind', 'wind'), ('tskc', 'tskc')]


def local(fname, ts):
    def u(h):
        c = h.c
        n = c.int('n_days')
        c.assume(n >= 1)
        w = h.arr(n, 'daily')
        r = h.call(h.fn('disaggregate', fname), w, ts, h.dict(utc_offset=False, time_step=ts, lon=c.real('lon'), theta_s=0))
        k = 1440 // ts
        h.prove('one value per step', eq(r.shape[0], n * k))
        i = h.idx(n * k)
        c.cover('%s local' % fname)
        h.prove('every step equals its day value', eq(r.at(i), w.at(floordiv(i, k))))
    return u


def utc(fname, ts):
    def u(h):
        c = h.c
        n = c.int('n_days')
        c.assume(n >= 1)
        w = h.arr(n, 'daily')
        lo, hi = c.real('smallest'), c.real('largest')
        forall(h, w, lambda d, x: land(x >= lo, x <= hi))
        c.sum_bounds += [strip(lo).t, strip(hi).t]
        lon = c.real('lon')
        c.assume(land(lon >= -180, lon <= 180))
        r = h.call(h.fn('disaggregate', fname), w, ts, h.dict(utc_offset=True, time_step=ts, lon=lon, theta_s=0))
        k = 1440 // ts
        h.prove('one value per step', eq(r.shape[0], n * k))
        c.cover('%s utc' % fname)
        # mean over the record
        tot = c.sums.range_sum(lambda j: toreal(r.at(j)), 0, n * k)
        day = c.sums.range_sum(lambda j: toreal(w.at(j)), 0, n)
        i = h.idx(n * k)
        v = r.at(i)
        h.prove('not below the smallest daily value', land(finite(v), cmp('>=', strip(v), lo)))
        h.prove('not above the largest daily value', land(finite(v), cmp('<=', strip(v), hi)))
        h.prove('record mean unchanged', eq(mul(tot, ts), mul(1440, day)))
    return u


def units(tier):
    out = []
    for f, _ in FN:
        for ts in STEPS:
            out.append(('C05.%s.local.ts%d' % (f, ts), local(f, ts)))
        for ts in STEPS:
            out.append(('C05.%s.utc.ts%d' % (f, ts), utc(f, ts)))
    return out
