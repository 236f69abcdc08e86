"""Air pressure: pressure() against the barometric formula, plus its stated consequences."""
from .common import *

ASSUMPTIONS = ['exp is an uninterpreted function with the axioms listed in the trusted base (positive, monotone, exp(0)=1, exp(a)exp(b)=exp(a+b) where used)']


def spec(T, elev, lapse):
    """101.325 exp(-g elev / (287 (T + 273.15 - 0.5 lapse elev)))"""
    temp = sub(add(T, F('273.15')), mul(mul(F(1, 2), lapse), elev))
    return mul(F('101.325'), uf('exp', div(mul(-1, mul(F('9.80665'), elev)), mul(287, temp))))


def temp_ok(h, T, elev, lapse):
    c = h.c
    forall(h, T, lambda i, x: cmp('>', sub(add(x, F('273.15')), mul(mul(F(1, 2), lapse), elev)), 0))


def formula(h):
    c = h.c
    n = c.int('n_steps')
    c.assume(n >= 1)
    T = h.arr(n, 'temp')
    elev, lapse = c.real('elev'), c.real('lapse_rate')
    temp_ok(h, T, elev, lapse)
    r = h.call(h.fn('disaggregate', 'pressure'), T, elev, lapse)
    h.prove('one value per step', eq(r.shape[0], n))
    i = h.idx(n)
    c.cover('pressure')
    v = r.at(i)
    h.prove('equals the barometric formula', eq(v, spec(T.at(i), elev, lapse)))
    h.prove('positive', land(finite(v), cmp('>', strip(v), 0)))


def sea(h):
    c = h.c
    n = c.int('n_steps')
    c.assume(n >= 1)
    T = h.arr(n, 'temp')
    lapse = c.real('lapse_rate')
    temp_ok(h, T, 0, lapse)
    r = h.call(h.fn('disaggregate', 'pressure'), T, 0, lapse)
    h.prove('standard pressure at sea level', eq(r.at(h.idx(n)), F('101.325')))


def above(h):
    c = h.c
    n = c.int('n_steps')
    c.assume(n >= 2)
    T = h.arr(n, 'temp')
    elev, lapse = c.real('elev'), c.real('lapse_rate')
    c.assume(elev > 0)
    temp_ok(h, T, elev, lapse)
    r = h.call(h.fn('disaggregate', 'pressure'), T, elev, lapse)
    i, j = h.idx(n), h.idx(n, 'j')
    c.cover('above sea level')
    h.prove('below standard pressure at positive elevation', cmp('<', strip(r.at(i)), F('101.325')))
    c.assume(cmp('<', T.at(i), T.at(j)))
    h.prove('rises with temperature', cmp('<', strip(r.at(i)), strip(r.at(j))))


def units(tier):
    return [('C21.pressure.formula', formula), ('C21.pressure.sea_level', sea), ('C21.pressure.above', above)]
