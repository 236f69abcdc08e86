"""Humidity: svp, relative_humidity, specific_humidity, vapor_pressure and the capped column of disaggregate."""
from .common import *
from . import formulas as fm

ASSUMPTIONS = ['exp is an uninterpreted function with the axioms listed in the trusted base',
               'scipy interp1d(kind=linear): the chord of the enclosing knots inside the knot range, missing outside']


def in_range(t):
    return land(cmp('>=', t, -100), cmp('<=', t, 60))


def temps(h, n, name='temp'):
    T = h.arr(n, name)
    forall(h, T, lambda i, x: in_range(x))
    return T


def svp_formula(h):
    c = h.c
    n = c.int('n')
    c.assume(n >= 1)
    T = temps(h, n)
    i = h.idx(n)
    t0 = T.at(i)
    r = h.call(h.fn('physics', 'svp'), T)
    h.prove('one value per element', eq(r.shape[0], n))
    c.cover('svp')
    h.prove('Maidment formula with the ice correction', eq(r.at(i), fm.svp(t0)))
    h.prove('argument unchanged', eq(T.at(i), t0))


def ice(t):
    return add(1, add(mul(F('0.00972'), t), mul(F('0.000042'), mul(t, t))))


def expo(t):
    return div(mul(F('17.269'), t), add(F('237.3'), t))


def svp_positive(h):
    c = h.c
    t = c.real('t')
    c.assume(in_range(t))
    h.lemma('ice correction positive', cmp('>', ice(t), 0))
    r = h.call(h.fn('physics', 'svp'), arrays.Arr.new((1,), lambda i: t, 'f'))
    h.prove('positive', cmp('>', strip(r.at(0)), 0))


def svp_monotone(h):
    c = h.c
    t, u = c.real('t'), c.real('u')
    c.assume(conj([in_range(t), in_range(u), t < u]))
    h.lemma('exponent increasing', cmp('<', expo(t), expo(u)))
    h.lemma('exp increasing', cmp('<', uf('exp', expo(t)), uf('exp', expo(u))))
    h.lemma('ice correction increasing', cmp('<', ice(t), ice(u)))
    h.lemma('ice correction positive', land(cmp('>', ice(t), 0), cmp('>', ice(u), 0)))
    h.lemma('ice correction below one under 0 C', land(implies(cmp('<', t, 0), cmp('<', ice(t), 1)), implies(cmp('<', u, 0), cmp('<', ice(u), 1))))
    h.lemma('exp positive', land(cmp('>', uf('exp', expo(t)), 0), cmp('>', uf('exp', expo(u)), 0)))
    one = lambda x: arrays.Arr.new((1,), lambda i: x, 'f')
    f = h.fn('physics', 'svp')
    a, b = h.call(f, one(t)), h.call(f, one(u))
    x, y = strip(a.at(0)), strip(b.at(0))
    # the products, case by case
    e, g = uf('exp', expo(t)), uf('exp', expo(u))
    p, q = ice(t), ice(u)
    h.lemma('both below zero', implies(cmp('<', u, 0), cmp('<', mul(e, p), mul(g, q))))
    h.lemma('across zero', implies(cmp('<', t, 0), cmp('<', mul(e, p), e)))
    h.prove('strictly increasing', cmp('<', x, y))


def rh(h):
    c = h.c
    n = c.int('n_steps')
    c.assume(n >= 1)
    T, e = temps(h, n), h.arr(n, 'vapor_pressure')
    i = h.idx(n)
    t0, e0 = T.at(i), e.at(i)
    c.assume(cmp('>', fm.svp(t0), 0))          # svp positive: proved above
    r = h.call(h.fn('disaggregate', 'relative_humidity'), e, T)
    h.prove('one value per step', eq(r.shape[0], n))
    c.cover('rh')
    h.prove('100 times the ratio to saturation, capped', eq(r.at(i), minimum(100, mul(100, div(mul(1000, e0), fm.svp(t0))))))
    h.prove('arguments unchanged', land(eq(T.at(i), t0), eq(e.at(i), e0)))


def sh(h):
    c = h.c
    n = c.int('n_steps')
    c.assume(n >= 1)
    e, p = h.arr(n, 'vapor_pressure'), h.arr(n, 'air_pressure')
    i = h.idx(n)
    c.assume(land(cmp('>=', e.at(i), 0), cmp('<', e.at(i), p.at(i))))
    e0, p0 = e.at(i), p.at(i)
    r = h.call(h.fn('disaggregate', 'specific_humidity'), e, p)
    h.prove('one value per step', eq(r.shape[0], n))
    c.cover('specific humidity')
    m = div(mul(F('0.62196351'), e0), sub(p0, e0))
    h.prove('mixing-ratio expression', eq(r.at(i), div(m, add(1, m))))
    h.prove('at least 0', cmp('>=', strip(r.at(i)), 0))
    h.prove('below 1', cmp('<', strip(r.at(i)), 1))
    h.prove('arguments unchanged', land(eq(e.at(i), e0), eq(p.at(i), p0)))


def vp(ts):
    def u(h):
        c = h.c
        n = c.int('n_days')
        c.assume(n >= 2)
        k = 1440 // ts
        T = temps(h, n * k)
        v, tm = h.arr(n, 'vp_daily'), h.arr(n, 't_t_min')
        increasing(h, tm)
        i, d = h.idx(n * k), h.idx(n - 1, 'd')
        c.segpoints = [d]
        ends = [tm.at(0), tm.at(sub(n, 1))]
        t0 = T.at(i)
        x = mul(ts, i)
        va, vb, ta, tb = v.at(d), v.at(add(d, 1)), tm.at(d), tm.at(add(d, 1))
        r = h.call(h.fn('disaggregate', 'vapor_pressure'), v, T, tm, n * k, ts)
        h.prove('one value per step', eq(r.shape[0], n * k))
        got = r.at(i)
        sat = div(fm.svp(t0), 1000)
        lin = add(va, mul(sub(vb, va), div(sub(x, ta), sub(tb, ta))))
        c.cover('vapor_pressure')
        h.prove('linear between the daily values, capped at saturation',
                implies(land(cmp('<', ta, x), cmp('<', x, tb)), eq(got, minimum(sat, div(lin, 1000)))))
        h.prove('never above saturation where present', implies(lnot(isnan(got)), cmp('<=', strip(got), sat)))
        h.prove('arguments unchanged', conj([eq(T.at(i), t0), eq(v.at(d), va), eq(tm.at(d), ta)]))
    return u


def isnan(x):
    return lnot(finite(x))


def units(tier):
    out = [('C04.svp.formula', svp_formula), ('C04.svp.positive', svp_positive), ('C04.svp.monotone', svp_monotone),
           ('C04.relative_humidity', rh), ('C04.specific_humidity', sh)]
    for ts in SUB:
        out.append(('C04.vapor_pressure.ts%d' % ts, vp(ts)))
    return out
