"""Longwave: emissivity parameterisations, cloud corrections, scaling to a supplied daily mean."""
from .common import *

ASSUMPTIONS = ['exp, sqrt and non-integer powers are uninterpreted functions with the axioms listed in the trusted base']
STEFAN = F('5.669e-8')


def emis(kind, e, t):
    """clear-sky emissivity, e in hPa, t in K"""
    if kind in ('DEFAULT', 'TVA'):
        return add(F('0.74'), mul(F('0.0049'), e))
    if kind == 'ANDERSON':
        return add(F('0.68'), mul(F('0.036'), uf('sqrt', e)))
    if kind == 'BRUTSAERT':
        return mul(F('1.24'), power(div(e, t), F('0.14285714')))
    if kind == 'SATTERLUND':
        return mul(F('1.08'), sub(1, uf('exp', mul(-1, power(e, div(t, 2016))))))
    if kind == 'IDSO':
        return add(F('0.7'), mul(mul(F('5.95e-5'), e), uf('exp', div(1500, t))))
    w = div(mul(F('46.5'), e), t)
    return sub(1, mul(add(1, w), uf('exp', mul(-1, uf('sqrt', add(F('1.2'), mul(3, w)))))))


def cloud(kind, em, t):
    if kind == 'CLOUD_DEARDORFF':
        return add(t, mul(sub(1, t), em))
    return mul(add(1, mul(F('0.17'), mul(t, t))), em)


def lw(kind, ckind, air, e, t):
    k = add(air, F('273.15'))
    return mul(mul(cloud(ckind, emis(kind, mul(10, e), k), t), STEFAN), power(k, 4))


def setup(h, n):
    T, e, s = h.arr(n, 'temp'), h.arr(n, 'vapor_pressure'), h.arr(n, 'tskc')
    forall(h, T, lambda i, x: land(cmp('>=', x, -100), cmp('<=', x, 60)))
    forall(h, e, lambda i, x: cmp('>', x, 0))
    forall(h, s, lambda i, x: land(cmp('>=', x, 0), cmp('<=', x, 1)))
    return T, e, s


def spell(w, k):
    return [w.upper(), w.lower(), w.capitalize()][k % 3]


def direct(kind, ckind, k):
    def u(h):
        c = h.c
        n = c.int('n_steps')
        c.assume(n >= 1)
        T, e, s = setup(h, n)
        i = h.idx(n)
        o = [T.at(i), e.at(i), s.at(i)]
        r = h.call(h.fn('disaggregate', 'longwave'), T, e, s, h.dict(lw_type=spell(kind, k), lw_cloud=spell(ckind, k + 1), time_step=60))
        h.prove('one value per step', eq(r.shape[0], n))
        c.cover('longwave')
        h.prove('emissivity x Stefan-Boltzmann x absolute temperature to the fourth', eq(r.at(i), lw(kind, ckind, *o)))
        h.prove('arguments unchanged', conj([eq(a.at(i), x) for a, x in zip((T, e, s), o)]))
        positive(h, kind, ckind, o)
        h.prove('positive', cmp('>', lw(kind, ckind, *o), 0))
    return u


def positive(h, kind, ckind, o):
    k = add(o[0], F('273.15'))
    E = mul(10, o[1])
    if kind == 'PRATA':
        w = div(mul(F('46.5'), E), k)
        h.lemma('pressure over temperature positive', cmp('>', w, 0))
        q = uf('sqrt', add(F('1.2'), mul(3, w)))
        h.lemma('root squared', eq(mul(q, q), add(F('1.2'), mul(3, w))))
        h.lemma('root positive', cmp('>', q, 0))
        h.lemma('exponential exceeds its argument', cmp('>', uf('exp', q), add(1, w)))
        h.c.axiom(T_inv(q))
        h.lemma('product below one', cmp('<', mul(add(1, w), uf('exp', mul(-1, q))), 1))
    if kind == 'BRUTSAERT':
        h.lemma('pressure over temperature positive', cmp('>', div(E, k), 0))
    h.lemma('clear-sky emissivity positive', cmp('>', emis(kind, E, k), 0))
    em = emis(kind, E, k)
    h.lemma('effective emissivity positive', cmp('>', cloud(ckind, em, o[2]), 0))
    h.lemma('absolute temperature positive', cmp('>', power(k, 4), 0))


def T_inv(q):
    """exp(q) * exp(-q) = 1"""
    return BT(cmp('==', mul(uf('exp', q), uf('exp', mul(-1, q))), 1))


def mean(ts, kind, ckind):
    def u(h):
        c = h.c
        n = c.int('n_days')
        c.assume(n >= 1)
        k = 1440 // ts
        T, e, s = setup(h, n * k)
        c.sum_signs = False
        L = daily(h, n, 'longwave')
        forall(h, L, lambda i, x: cmp('>', x, 0))
        f = h.fn('disaggregate', 'longwave')
        P = lambda: h.dict(lw_type=kind, lw_cloud=ckind, time_step=ts)
        base = h.call(f, T, e, s, P())
        d, j = h.idx(n, 'day'), h.idx(k, 'step')
        # contract of the unscaled call (proved above): positive
        b_at = lambda q: base.at(add(mul(d, k), q))
        S_ = c.sums.range_sum(lambda q: toreal(b_at(q)), 0, k)
        c.assume(cmp('>', S_, 0))
        r = h.call(f, T, e, s, P(), L)
        h.prove('one value per step', eq(r.shape[0], n * k))
        c.cover('longwave with a daily mean')
        tot = c.sums.range_sum(lambda q: toreal(r.at(add(mul(d, k), q))), 0, k)
        h.prove('daily mean equals the supplied value', eq(tot, mul(k, L.arr.at(d))))
        h.prove('shape within the day unchanged', eq(r.at(add(mul(d, k), j)), mul(b_at(j), div(mul(k, L.arr.at(d)), S_))))
    return u


def units(tier):
    out, k = [], 0
    for kind in ('DEFAULT', 'TVA', 'ANDERSON', 'BRUTSAERT', 'SATTERLUND', 'IDSO', 'PRATA'):
        for ck in ('DEFAULT', 'TVA', 'CLOUD_DEARDORFF'):
            for v in range(3):
                out.append(('C06.longwave.%s.%s' % (spell(kind, v), spell(ck, v + 1)), direct(kind, ck, v)))
    for ts in STEPS:
        out.append(('C06.daily_mean.ts%d' % ts, mean(ts, 'DEFAULT', 'CLOUD_DEARDORFF')))
    for kind in ('ANDERSON', 'BRUTSAERT', 'SATTERLUND', 'IDSO', 'PRATA'):
        out.append(('C06.daily_mean.%s' % kind, mean(60, kind, 'TVA')))
    return out
