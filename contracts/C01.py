"""Sub-daily precipitation: conservation, non-negativity, shape."""
from .common import *


def setup(h, kind, utc, ts):
    c = h.c
    n = c.int('n_days')
    c.assume(n >= 1)
    P = daily(h, n, 'prec')
    T0 = daily(h, n, 't_min', index=P.index)
    nonneg(h, P)
    tpk = daily(h, n, 't_pk', index=P.index)
    dur = daily(h, n, 'dur', index=P.index)
    forall(h, tpk, lambda i, x: land(x >= 0, x <= 1439))
    forall(h, dur, lambda i, x: x >= 2)
    d = base_decl(tpk.arr)

    def peak(app):
        """first whole minute not before the peak of the day a sum speaks about"""
        return [-z3.ToInt(-d(p)) for p in app.children()[2:] if z3.is_int(p)]
    c.sum_witness.append(peak)
    lon = c.real('lon')
    c.assume(land(lon >= -180, lon <= 180))
    params = h.dict(utc_offset=utc, time_step=ts, lon=lon, theta_s=0, prec_type=kind)
    if kind.upper() in ('TRIANGLE', 'MIX'):
        r = h.call(h.fn('disaggregate', 'prec'), P, T0, ts, params, tpk, dur)
    else:
        r = h.call(h.fn('disaggregate', 'prec'), P, T0, ts, params)
    r = models.to_arr(h.it, r)
    return n, P, T0, tpk, dur, r


def window(tpk, dur, d):
    """first minute, last minute of the rise, first and last minute of the fall, start, stop"""
    pk, du = tpk.arr.at(d), dur.arr.at(d)
    t0, t1 = sub(pk, mul(F(1, 2), du)), add(pk, mul(F(1, 2), du))
    A = core.ceil_(maximum(t0, 0))
    Z = core.floor_(minimum(t1, 1439))
    return A, core.floor_(pk), core.ceil_(pk), Z, t0, t1


def local(kind, ts):
    def u(h):
        c = h.c
        n, P, T0, tpk, dur, r = setup(h, kind, False, ts)
        k = 1440 // ts
        h.prove('one value per step', eq(r.shape[0], n * k))
        c.cover(kind + ' local')
        d = h.idx(n, 'day')
        s = c.sums.range_sum(lambda j: toreal(r.at(add(mul(d, k), j))), 0, k)
        h.prove('steps of a day sum to the day total', eq(s, P.arr.at(d)))
        j = h.idx(k, 'step')
        v = r.at(add(mul(d, k), j))
        h.prove('no negative amount', land(finite(v), cmp('>=', strip(v), 0)))
        if kind.upper() == 'UNIFORM':
            h.prove('every step gets the same share', eq(v, mul(P.arr.at(d), F(ts, 1440))))
        if kind.upper() == 'MIX':
            h.prove('uniform below freezing', implies(T0.arr.at(d) < 0, eq(v, mul(P.arr.at(d), F(ts, 1440)))))
        if kind.upper() != 'UNIFORM':
            A, p1, p2, Z, t0, t1 = window(tpk, dur, d)
            warm = True if kind.upper() == 'TRIANGLE' else T0.arr.at(d) >= 0
            out = lor(cmp('<', add(mul(j, ts), ts - 1), t0), cmp('>', mul(j, ts), t1))
            h.prove('nothing outside the storm window', implies(land(warm, out), eq(v, 0)))
            if ts == 1:
                for s_ in list(c.selections):
                    if not s_.interval(lambda *k: window(tpk, dur, k[-1])[:2], lambda *k: rng(k[-1], n)):
                        s_.interval(lambda *k: window(tpk, dur, k[-1])[2:4], lambda *k: rng(k[-1], n))
                def w(m):
                    rise = ite(cmp('>', p1, A), div(toreal(sub(m, A)), toreal(sub(p1, A))), 0)
                    fall = ite(cmp('>', Z, p2), sub(1, div(toreal(sub(m, p2)), toreal(sub(Z, p2)))), 1)
                    return ite(land(cmp('>=', m, p2), cmp('<=', m, Z)), fall,
                               ite(land(cmp('>=', m, A), cmp('<=', m, p1)), rise, 0))
                c.assume(warm)
                S_ = c.sums.range_sum(w, 0, 1440)
                h.prove('rises linearly to the peak and falls linearly after it', eq(v, mul(div(P.arr.at(d), S_), w(j))))
    return u


def utc(kind, ts):
    def u(h):
        c = h.c
        n, P, T0, tpk, dur, r = setup(h, kind, True, ts)
        k = 1440 // ts
        h.prove('one value per step', eq(r.shape[0], n * k))
        c.cover(kind + ' utc')
        tot = c.sums.range_sum(lambda j: toreal(r.at(j)), 0, n * k)
        day = c.sums.range_sum(lambda j: toreal(P.arr.at(j)), 0, n)
        h.prove('record total conserved', eq(tot, day))
    return u


def units(tier):
    out = []
    for kind in ('uniform', 'triangle', 'mix'):
        for ts in STEPS:
            out.append(('C01.%s.local.ts%d' % (kind, ts), local(kind, ts)))
            out.append(('C01.%s.utc.ts%d' % (kind, ts), utc(kind, ts)))
    return out
