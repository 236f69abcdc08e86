"""Shared vocabulary of the contracts (independent of the code under test)."""
from fractions import Fraction as F
import z3
from pyvc import core, arrays, models, interp
from pyvc.core import (S, T, RT, BT, add, sub, mul, div, cmp, land, lor, lnot, implies, ite, conj, finite,
                       minimum, maximum, uf, power, strip, toreal, toint, floordiv, mod)
from pyvc.arrays import Arr

STEPS = [t for t in range(1, 1441) if 1440 % t == 0 and (t <= 360 or t == 1440)]
SUB = [t for t in STEPS if t < 1440]


def steps(tier):
    return STEPS


def eq(a, b):
    """both finite and equal"""
    return conj([finite(a), finite(b), cmp('==', strip(a), strip(b))])


def same(a, b):
    """equal, or missing alike"""
    fa, fb = finite(a), finite(b)
    return conj([implies(fa, fb), implies(fb, fa), cmp('==', strip(a), strip(b))])


def rng(i, n):
    return land(cmp('>=', i, 0), cmp('<', i, n))


def daily(h, n, name, index=None, finite=True):
    """a daily pandas Series of length n starting at an arbitrary day"""
    if index is None:
        index = day_index(h, n)
    return models.Series(h.arr(n, name, finite), index, name)


def day_index(h, n):
    d0 = h.c.int('first_day')
    return models.DTIndex(mul(d0, 1440), 1440, n)


def base_decl(a):
    """uninterpreted function behind a fresh array"""
    x = a.at(*[core.S(z3.Int('probe!')) for _ in range(a.ndim)])
    return strip(x).t.decl()


def forall(h, a, fact):
    """assume fact(i, a[i]) for every element of a fresh array (instantiated at every read)"""
    if isinstance(a, models.Series):
        a = a.arr
    d = base_decl(a)
    n = a.shape

    def inst(args):
        ix = [S(x) for x in args]
        g = conj([rng(i, m) for i, m in zip(ix, n)])
        return [BT(implies(g, fact(*(ix + [S(d(*args))]))))]
    old = h.c.on_app.get(d.name())
    h.c.on_app[d.name()] = inst if old is None else (lambda args: old(args) + inst(args))


def nonneg(h, a):
    forall(h, a, lambda i, x: x >= 0)


def adjacent(h, a, fact):
    """assume fact(i, a[i], a[i+1]) for every pair of neighbours of a fresh 1-d array"""
    if isinstance(a, models.Series):
        a = a.arr
    d = base_decl(a)
    n = a.shape[0]

    def inst(args):
        out = []
        for k in (S(args[0]), sub(S(args[0]), 1)):
            k1 = add(k, 1)
            out.append(BT(implies(land(cmp('>=', k, 0), cmp('<', k1, n)), fact(k, S(d(T(toint(k)))), S(d(T(toint(k1))))))))
        return out
    old = h.c.on_app.get(d.name())
    h.c.on_app[d.name()] = inst if old is None else (lambda args: old(args) + inst(args))


def increasing(h, a):
    """assume a[i] < a[j] for every i < j of a fresh 1-d array (instantiated for every pair of reads)"""
    if isinstance(a, models.Series):
        a = a.arr
    d = base_decl(a)
    n = a.shape[0]
    seen = []

    def inst(args):
        x, out = args[0], []
        for y in seen:
            for p, q in ((x, y), (y, x)):
                out.append(BT(implies(conj([cmp('>=', S(p), 0), cmp('<', S(p), S(q)), cmp('<', S(q), n)]), cmp('<', S(d(p)), S(d(q))))))
        seen.append(x)
        return out
    old = h.c.on_app.get(d.name())
    h.c.on_app[d.name()] = inst if old is None else (lambda args: old(args) + inst(args))
