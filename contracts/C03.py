"""Sub-daily temperature: times of the extremes and the interpolation between them."""
from .common import *
from . import cell_contracts as cell

ASSUMPTIONS = ['scipy PchipInterpolator passes through its knots and stays between the two enclosing knots',
               'radiation masks as solar_geom makes them (C08): each row lit on one interval of steps a<=j<b, with 2<=a<b<=2879, or never, or always',
               'adjacent days of a Series index: none; yday is any array of row numbers'] + cell.ASSUMPTIONS


def mask(h, tiny, rows=366):
    """ghost: first lit step a(r) and first dark step after it b(r) of every row"""
    a, b = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('lit_from', 'lit_to'))
    A, B = (lambda r: S(a(T(r)))), (lambda r: S(b(T(r))))

    def row(r):
        return lor(land(cmp('==', A(r), 0), lor(cmp('==', B(r), 0), cmp('==', B(r), 2880))),
                   conj([cmp('>=', A(r), 2), cmp('<', A(r), B(r)), cmp('<=', B(r), 2879)]))

    def writers(x):
        return [s.rank((x[0], sub(q(x[0]), 1))) for s in h.c.selections if s.nd == 2 for q in (A, B)]
    h.c.lw_witness.append(writers)
    for f in ('lit_from', 'lit_to'):
        h.c.on_app[f] = lambda args: [BT(row(S(args[0])))]
    forall(h, tiny, lambda r, j, x: land(cmp('>=', x, 0), land(implies(land(cmp('<=', A(r), j), cmp('<', j, B(r))), cmp('>', x, 0)),
                                                             implies(cmp('>', x, 0), land(cmp('<=', A(r), j), cmp('<', j, B(r)))))))
    return A, B


def sun(A, B, y):
    """sunrise and sunset minute of row y, one sixth and four sixths of the day without them"""
    up = cmp('>', A(y), 0)
    return ite(up, div(sub(A(y), 1), 2), 240), ite(up, div(sub(B(y), 1), 2), 960)


def times(utc):
    def u(h):
        c = h.c
        n, ts = c.int('n_days'), c.int('time_step')
        c.assume(conj([n >= 1, ts >= 1, ts <= 1440]))
        tiny = h.arr((366, 2880), 'tiny_rad_fract')
        A, B = mask(h, tiny)
        yday = h.arr(n, 'yday', dtype='i')
        forall(h, yday, lambda i, x: land(cmp('>=', x, 0), cmp('<=', x, 365)))
        fr, lon = c.real('tmax_daylength_fraction'), c.real('lon')
        c.assume(land(fr > 0, fr < 1))
        d = h.idx(n, 'd')
        y = yday.at(d)
        t0 = tiny.at(y, 5)
        p = h.dict(utc_offset=utc, lon=lon, theta_s=0, tmax_daylength_fraction=fr, time_step=ts)
        r = h.call(h.fn('disaggregate', 'set_min_max_hour'), tiny, yday, h.arr(366, 'daylength'), n, ts, p)
        lo, hi = [models.to_arr(h.it, x) for x in r]
        h.prove('one value per day', land(eq(lo.shape[0], n), eq(hi.shape[0], n)))
        c.cover('set_min_max_hour')
        rise, sett = sun(A, B, y)
        off = toint(mul(div(lon, 360), 1440)) if utc else 0
        base = sub(mul(1440, d), add(ts, off))
        h.prove('minimum at the step ending at sunrise', eq(lo.at(d), add(rise, base)))
        h.prove('maximum at the step ending the configured fraction of the way to sunset', eq(hi.at(d), add(add(rise, mul(fr, sub(sett, rise))), base)))
        h.prove('radiation curve unchanged', eq(tiny.at(y, 5), t0))
    return u


def curve(ts, begin, end):
    def u(h):
        c = h.c
        n = c.int('n_days')
        c.assume(n >= 1)
        k = 1440 // ts
        lo, hi = h.arr(n, 't_min'), h.arr(n, 't_max')
        forall(h, lo, lambda i, x: cmp('<=', x, hi.at(i)))
        L, H = h.arr(n, 't_t_min'), h.arr(n, 't_t_max')
        # what set_min_max_hour guarantees in local time (proved above; 0 < sunrise < sunset < 1440)
        fact = lambda i: conj([cmp('>=', L.at(i), sub(mul(1440, i), ts)), cmp('<', L.at(i), H.at(i)), cmp('<', H.at(i), sub(mul(1440, add(i, 1)), ts))])
        forall(h, L, lambda i, x: fact(i))
        forall(h, H, lambda i, x: fact(i))
        ends = []
        for nm, on in (('begin', begin), ('end', end)):
            if on:
                x, y = c.real(nm + '_min'), c.real(nm + '_max')
                c.assume(x <= y)
                ends.append([x, y])
            else:
                ends.append(None)
        d, j = h.idx(n, 'd'), h.idx(k, 'step')
        i = add(mul(k, d), j)
        o = [a.at(d) for a in (lo, hi, L, H)]
        c.segpoints = [add(mul(2, d), q) for q in (1, 2, 3)]
        mk = lambda e: None if e is None else h.it.call(h.it.builtins['list'], [tuple(e)], {})
        r = models.to_arr(h.it, h.call(h.fn('disaggregate', 'temp'), lo, hi, mul(n, k), L, H, ts, mk(ends[0]), mk(ends[1])))
        h.prove('one value per step', eq(r.shape[0], mul(n, k)))
        c.cover('temp')
        b = ends[0] or [lo.at(0), hi.at(0)]
        e = ends[1] or [lo.at(sub(n, 1)), hi.at(sub(n, 1))]
        before, after = sub(d, 1), add(d, 1)
        pl, ph = ite(cmp('>', d, 0), lo.at(before), b[0]), ite(cmp('>', d, 0), hi.at(before), b[1])
        nl, nh = ite(cmp('<', after, n), lo.at(after), e[0]), ite(cmp('<', after, n), hi.at(after), e[1])
        v = r.at(i)
        h.prove('finite', finite(v))
        v = strip(v)
        h.prove('not below the smallest minimum of the day and its neighbours', cmp('>=', v, minimum(minimum(pl, lo.at(d)), nl)))
        h.prove('not above the largest maximum of the day and its neighbours', cmp('<=', v, maximum(maximum(ph, hi.at(d)), nh)))
        g = h.idx(mul(n, k), 'any_step')
        w = strip(r.at(g))
        h.prove('minimum attained at its time', implies(cmp('==', mul(ts, g), L.at(d)), cmp('==', w, lo.at(d))))
        h.prove('maximum attained at its time', implies(cmp('==', mul(ts, g), H.at(d)), cmp('==', w, hi.at(d))))
        h.prove('arguments unchanged', conj([eq(a.at(d), x) for a, x in zip((lo, hi, L, H), o)]))
    return u


def units(tier):
    out = [('C03.set_min_max_hour', times(False))]
    for ts in SUB:
        for b, e in ((False, False), (True, True)):
            out.append(('C03.temp.ts%d.%s' % (ts, 'adjoining' if b else 'repeated'), curve(ts, b, e)))
        out.append(('C03.cell.ts%d' % ts, cell.unit(ts, ('adjoin',))))
    out.append(('C03.temp.ts60.before', curve(60, True, False)))
    out.append(('C03.temp.ts60.after', curve(60, False, True)))
    return out
