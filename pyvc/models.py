"""Models (assumed contracts) of builtins and libraries used by the verified code."""
import ast
import itertools as _it
import math as _math
from fractions import Fraction
import z3
from . import core
from .core import (S, T, RT, BT, Unsupported, PyRaise, PathAbort, vc, is_conc, is_num, add, sub, mul,
                   div, cmp, land, lor, lnot, ite, conj, lift, isint, implies, minimum, maximum,
                   toint, floor_, ceil_, toreal, uf, power, nanof, strip, withnan)
from . import arrays
from .arrays import Arr, elementwise, dtype_of, broadcast_reader, dim_eq
from .interp import (Builtin, Module, VList, VDict, VSet, SymSeq, Range, Func, BoundMethod, Cls, Inst,
                     ExcValue, Opaque, Poison, check_mut, UNROLL)

NAN = 'nan'


def nan_():
    return S(z3.RealVal(0), z3.BoolVal(True))


def is_scalar(x):
    return isinstance(x, S) or is_conc(x)


def is_float(x):
    return isinstance(x, Fraction) or isinstance(x, S) and not x.is_int and not x.is_bool


class TypeTok:
    """a type object of the interpreted program"""
    def __init__(self, name, check, call=None, dt=None):
        self.name, self.check, self.callf, self.dt = name, check, call, dt

    def vcall(self, interp, *a, **k):
        if self.callf is None:
            raise Unsupported('constructor of %s' % self.name)
        return self.callf(*a, **k)

    def vattr(self, interp, n):
        if n == '__name__':
            return self.name
        if n == 'fromkeys' and self.name == 'dict':
            return B(lambda ks, v=None: VDict((k, v) for k in interp.iterate(ks)))
        if n == 'type':
            return self
        return NotImplemented

    def __repr__(self):
        return '<type %s>' % self.name


def B(fn, name=''):
    return Builtin(fn, name)


def to_arr(interp, x, dtype=None):
    if isinstance(x, Arr):
        return x
    h = getattr(x, 'varr', None)
    if h is not None:
        return h(interp)
    if isinstance(x, SymSeq):
        probe = x.elem(vc().int('p'))
        if isinstance(probe, Arr):
            sh = probe.shape

            def rd(i):
                return x.elem(i[0]).reader()(tuple(i[1:]))
            return Arr.new((x.n,) + sh, rd, probe.dtype)
        if isinstance(probe, (list, tuple)):
            return Arr.new((x.n, len(probe)), lambda i: arrays.select(list(x.elem(i[0])), i[1]), dtype_of(probe[0]))
        return Arr.new((x.n,), lambda i: x.elem(i[0]), dtype_of(probe))
    if isinstance(x, Range):
        s = interp.as_seq(x)
        if isinstance(s, list):
            return arrays.from_seq(s)
        return to_arr(interp, s)
    if isinstance(x, (list, tuple)):
        xs = [to_arr(interp, y) if not is_scalar(y) else y for y in x]
        return arrays.from_seq(xs)
    if is_scalar(x):
        return Arr.new((), lambda i: x, dtype_of(x))
    raise Unsupported('array from %s' % type(x).__name__)


def arr_or_scalar(interp, x):
    if is_scalar(x):
        return x
    return to_arr(interp, x)


def as_dtype(d):
    if d is None:
        return None
    if isinstance(d, TypeTok):
        if d.dt is None:
            raise Unsupported('dtype')
        return d.dt
    if isinstance(d, str):
        s = d.lstrip('<>=|')
        return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(s[0])
    raise Unsupported('dtype')


def cast(a, dt):
    if dt is None or a.dtype == dt:
        return a
    rd = a.reader()
    f = {'f': toreal, 'i': toint, 'b': lambda x: lift(BT(x))}[dt]
    return Arr.new(a.shape, lambda i: f(rd(i)), dt)


def shape_of(interp, s):
    if isinstance(s, (tuple, list)):
        out = tuple(s)
    else:
        out = (s,)
    r = []
    for x in out:
        if isinstance(x, Fraction) or isinstance(x, S) and not x.is_int:
            raise PyRaise(TypeError, ('float object cannot be interpreted as an integer',))
        if isinstance(x, Arr) and x.ndim == 0:
            x = x.at()
        r.append(x)
    return tuple(r)


def nvl(v, d):
    return d if v is None else v


# ------------------------------------------------------------------ numpy
def np_reduce_axes(a, axis):
    nd = a.ndim
    if axis is None:
        return list(range(nd))
    if isinstance(axis, (tuple, list)):
        return sorted(x % nd for x in axis)
    return [axis % nd]


def np_sum(interp, a, axis=None):
    a = to_arr(interp, a)
    axes = np_reduce_axes(a, axis)
    rd = a.reader()
    keep = [i for i in range(a.ndim) if i not in axes]
    sh = tuple(a.shape[i] for i in keep)
    isi = a.dtype in ('i', 'b')
    c = vc()

    def val(idx):
        full = [None] * a.ndim
        for p, i in zip(keep, idx):
            full[p] = i

        def rec(ax):
            if not ax:
                v = rd(tuple(full))
                return toreal(v)
            p = ax[0]

            def f(j):
                full[p] = j
                return rec(ax[1:])
            return c.sums.range_sum(f, 0, a.shape[p])
        r = rec(axes)
        return toint(r) if isi else r
    if not keep:
        return val(())
    return Arr.new(sh, val, 'i' if isi else 'f')


def axis_size(a, axis):
    r = 1
    for x in np_reduce_axes(a, axis):
        r = mul(r, a.shape[x])
    return r


def np_mean(interp, a, axis=None):
    a = to_arr(interp, a)
    s = np_sum(interp, a, axis)
    n = axis_size(a, axis)
    if isinstance(s, Arr):
        rd = s.reader()
        return Arr.new(s.shape, lambda i: div(rd(i), n), 'f')
    return div(s, n)


def np_any(interp, a, neg=False):
    """exists: skolem witness; instances on request"""
    a = to_arr(interp, a)
    if a.dtype != 'b':
        a = elementwise(lambda x: cmp('!=', x, 0), [a], 'cmp')
    c = vc()
    rd = a.reader()
    if all(is_conc(s) for s in a.shape) and (a.size <= 64):
        r = False
        for idx in _it.product(*[range(s) for s in a.shape]):
            v = rd(idx)
            r = lor(r, lnot(v) if neg else v)
        return lnot(r) if neg else r
    w = c.bool('any')
    p = tuple(c.int('wit') for _ in a.shape)
    g = (lambda i: lnot(rd(i))) if neg else rd
    c.axiom(implies(w, land(a.inb(p), g(p))))

    def inst(*q):
        if len(q) == a.ndim:
            c.axiom(implies(land(a.inb(q), g(q)), w))
    if not hasattr(c, 'foralls'):
        c.foralls = []
    c.foralls.append((a.ndim, inst, c.fresh_n))
    for q in c.points1:
        if a.ndim == 1:
            inst(q)
    for q in getattr(c, 'points', ()):
        inst(*q)
    # no elements, no witness
    return lnot(w) if neg else w


def instantiate(c, *q):
    for nd, f, _ in getattr(c, 'foralls', []):
        if nd == len(q):
            f(*q)


def np_extreme(interp, a, which, axis=None):
    a = to_arr(interp, a)
    rd = a.reader()
    better = minimum if which == 'min' else maximum
    axes = np_reduce_axes(a, axis)
    n = axis_size(a, axis)
    if is_conc(n) and n <= 64 and a.ndim == 1:
        if n == 0:
            raise PyRaise(ValueError, ('zero-size array to reduction operation',))
        r = rd((0,))
        for i in range(1, n):
            r = better(r, rd((i,)))
        return r
    if len(axes) != a.ndim:
        raise Unsupported('min/max over an axis')
    c = vc()
    m = c.int('ext') if a.dtype == 'i' else c.real('ext')
    p = tuple(c.int('arg') for _ in a.shape)
    c.safety('reduction of a non-empty array', cmp('>', a.size, 0), ValueError)
    v = rd(p)
    c.axiom(land(a.inb(p), cmp('==', strip(v), m)))
    op = '<=' if which == 'min' else '>='

    def inst(*q):
        if len(q) == a.ndim:
            c.axiom(implies(a.inb(q), cmp(op, m, strip(rd(q)))))
    if not hasattr(c, 'foralls'):
        c.foralls = []
    c.foralls.append((a.ndim, inst, 0))
    for q in c.points1:
        if a.ndim == 1:
            inst(q)
    if nanof(v) is not None:
        with c.assuming([a.inb(p)]):
            if not c.entails(core.finite(v)):
                raise Unsupported('extreme of possibly missing values')
    return m


def np_arange(interp, *a, **k):
    dt = as_dtype(k.pop('dtype', None))
    if k:
        raise Unsupported('arange keywords')
    a = [x.at() if isinstance(x, Arr) and x.ndim == 0 else x for x in a]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    for x in (lo, hi, st):
        if not is_scalar(x):
            raise Unsupported('arange argument')
    allint = all(isint(x) for x in (lo, hi, st))
    span = sub(hi, lo)
    if allint:
        if is_conc(span) and is_conc(st):
            if st == 0:
                raise PyRaise(ZeroDivisionError, ('arange step',))
            n = max(0, -((-span) // st))
        elif is_conc(st) and st > 0:
            n = core.floordiv(add(span, st - 1), st) if st != 1 else span
            if not vc().entails(cmp('>=', n, 0)):
                n = maximum(n, 0)
        else:
            vc().safety('arange step is positive', cmp('>', st, 0), ZeroDivisionError)
            n = core.floordiv(add(span, sub(st, 1)), st)
            if not vc().entails(cmp('>=', n, 0)):
                n = maximum(n, 0)
        out = Arr.new((n,), lambda i: add(lo, mul(st, i[0])), 'i')
    else:
        if is_conc(st) and st == 0:
            raise PyRaise(ZeroDivisionError, ('arange step',))
        q = div(span, st)
        n = ceil_(toreal(q))
        if isinstance(n, S):
            n = S(n.t)
        if is_conc(n):
            n = max(0, n)
        elif not vc().entails(cmp('>=', n, 0)):
            n = maximum(n, 0)
        out = Arr.new((n,), lambda i: toreal(add(lo, mul(st, i[0]))), 'f')
    return cast(out, dt)


def np_linspace(interp, lo, hi, num=50, endpoint=True, dtype=None, **k):
    if k:
        raise Unsupported('linspace keywords')
    n = num
    dm = sub(n, 1) if endpoint else n

    def f(i):
        if is_conc(n) and n <= 1 and endpoint:
            return toreal(lo)
        # guarded division: the step is only used when there are two or more points
        j = i[0]
        t = ite(cmp('>=', n, 2) if endpoint else cmp('>=', n, 1),
                S(RT(sub(hi, lo)) * RT(j) / RT(dm)) if isinstance(dm, S) else div(mul(sub(hi, lo), j), dm), Fraction(0))
        return add(toreal(lo), t)
    return Arr.new((n,), f, as_dtype(dtype) or 'f')


def np_repeat(interp, a, m, axis=None):
    a = arr_or_scalar(interp, a)
    if is_scalar(a):
        v = a
        return Arr.new(shape_of(interp, m), lambda i: v, dtype_of(v))
    if isinstance(m, Arr):
        raise Unsupported('repeat by array')
    m = toint(m) if is_conc(m) else m
    if axis is not None and a.ndim > 1:
        if axis % a.ndim == 0:
            rd = a.reader()
            return Arr.new((mul(a.shape[0], m),) + a.shape[1:], lambda i: rd((core.floordiv(i[0], m),) + tuple(i[1:])), a.dtype)
        raise Unsupported('repeat axis')
    if a.ndim != 1:
        a = ravel(a)
    rd = a.reader()
    return Arr.new((mul(a.shape[0], m),), lambda i: rd((core.floordiv(i[0], m),)), a.dtype)


def np_tile(interp, a, m):
    a = to_arr(interp, a)
    if a.ndim > 1 or isinstance(m, (tuple, list)):
        raise Unsupported('tile')
    if a.ndim == 0:
        v = a.at()
        return Arr.new((m,), lambda i: v, a.dtype)
    rd, n = a.reader(), a.shape[0]
    return Arr.new((mul(n, m),), lambda i: rd((core.mod(i[0], n),)), a.dtype)


def np_roll(interp, a, shift, axis=None):
    a = to_arr(interp, a)
    if a.ndim != 1:
        if axis is None or a.ndim > 2:
            raise Unsupported('roll of nd array')
        ax = axis % a.ndim
        rd, n = a.reader(), a.shape[ax]
        return Arr.new(a.shape, lambda i: rd(tuple(core.mod(sub(x, shift), n) if p == ax else x for p, x in enumerate(i))), a.dtype)
    rd, n = a.reader(), a.shape[0]
    if not isint(shift):
        raise PyRaise(TypeError, ('roll shift',))
    # (i - shift) mod n;  n may be symbolic and must be positive to matter
    if is_conc(n):
        return Arr.new((n,), lambda i: rd((core.mod(sub(i[0], shift), n),)), a.dtype)
    if not vc().entails(cmp('>', n, 0)):
        raise Unsupported('roll of possibly empty array')
    return Arr.new((n,), lambda i: rd((lift(T(sub(i[0], shift)) % T(n)),)), a.dtype)


def flat_index(shape, idx):
    r = 0
    for s, i in zip(shape, idx):
        r = add(mul(r, s), i)
    return r


def unflatten(shape, f):
    """flat position -> multi index"""
    idx = []
    rest = f
    for s in reversed(shape[1:]):
        idx.append(core.mod(rest, s) if is_conc(s) else S(T(rest) % T(s)))
        rest = core.floordiv(rest, s) if is_conc(s) else S(T(rest) / T(s))
    idx.append(rest)
    return tuple(reversed(idx))


def ravel(a, copy=False):
    if a.ndim == 1:
        return a.copy() if copy else a
    rd = a.reader()
    if a.ndim == 0:
        return Arr.new((1,), lambda i: rd(()), a.dtype)
    sh = a.shape
    out = Arr.new((a.size,), lambda i: rd(unflatten(sh, i[0])), a.dtype)
    if not copy:
        out.frozen = 'ravel result'
    return out


def reshape(interp, a, *shape):
    a = to_arr(interp, a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    shape = list(shape_of(interp, tuple(shape)))
    size = a.size
    if any(is_conc(s) and s == -1 for s in shape):
        p = [i for i, s in enumerate(shape) if is_conc(s) and s == -1][0]
        other = 1
        for i, s in enumerate(shape):
            if i != p:
                other = mul(other, s)
        if is_conc(size) and is_conc(other):
            if other == 0 or size % other:
                raise PyRaise(ValueError, ('cannot reshape',))
            shape[p] = size // other
        else:
            vc().safety('reshape: size is a multiple of the row length', cmp('==', core.mod(size, other), 0), ValueError)
            shape[p] = lift(core.vc().sums and __import__('pyvc.sums', fromlist=['simp']).simp(vc(), T(core.floordiv(size, other))))
    else:
        tot = 1
        for s in shape:
            tot = mul(tot, s)
        if not dim_eq(tot, size):
            vc().safety('reshape keeps the size', cmp('==', tot, size), ValueError)
    shape = tuple(shape)
    rd, sh0 = a.reader(), a.shape
    out = Arr.new(shape, lambda i: rd(unflatten(sh0, flat_index(shape, i)) if len(sh0) != 1 else (flat_index(shape, i),)) if len(sh0) else rd(()), a.dtype)
    out.frozen = 'reshape result'
    return out


def unfreeze(a):
    return a


def concat(interp, parts, axis=0):
    ps = [to_arr(interp, p) for p in interp.iterate(parts)]
    if not ps:
        raise PyRaise(ValueError, ('need at least one array to concatenate',))
    if len(ps) == 1:
        return ps[0].copy()
    ax = axis % ps[0].ndim
    rds = [p.reader() for p in ps]
    offs = [0]
    for p in ps:
        offs.append(add(offs[-1], p.shape[ax]))
    sh = list(ps[0].shape)
    sh[ax] = offs[-1]
    for p in ps[1:]:
        if p.ndim != ps[0].ndim:
            raise PyRaise(ValueError, ('all the input array dimensions',))
        for d in range(p.ndim):
            if d != ax and not dim_eq(p.shape[d], ps[0].shape[d]):
                vc().safety('concatenated shapes agree', cmp('==', p.shape[d], ps[0].shape[d]), ValueError)
    dt = arrays.result_dtype('num', [p.dtype for p in ps]) if any(p.dtype != 'b' for p in ps) else 'b'

    def f(i):
        r = None
        for j in range(len(ps) - 1, -1, -1):
            x = tuple(sub(v, offs[j]) if d == ax else v for d, v in enumerate(i))
            c = cmp('>=', i[ax], offs[j])
            if r is None:
                if is_conc(c) and not c:
                    continue
                v = rds[j](x)
                r = toreal(v) if dt == 'f' else v
                continue
            lastc = cmp('<', i[ax], offs[j + 1])
            if lastc is False:
                continue
            v = rds[j](x)
            v = toreal(v) if dt == 'f' else v
            r = v if lastc is True else ite(lastc, v, r)
            if lastc is True:
                pass
        return r
    return Arr.new(tuple(sh), f, dt)


def np_insert(interp, a, pos, vals):
    a = to_arr(interp, a)
    v = to_arr(interp, vals)
    if v.ndim == 0:
        x = v.at()
        v = Arr.new((1,), lambda i: x, v.dtype)
    if a.ndim != 1 or v.ndim != 1 or not isint(pos):
        raise Unsupported('insert')
    if is_conc(pos) and pos < 0:
        pos = add(a.shape[0], pos)
    m = v.shape[0]
    ar, vr = a.reader(), v.reader()
    dt = a.dtype

    def f(i):
        x = i[0]
        vv = lambda: (toreal(vr((sub(x, pos),))) if dt == 'f' else toint(vr((sub(x, pos),))))
        c1 = cmp('<', x, pos)
        c2 = cmp('<', x, add(pos, m))
        if c1 is True:
            return ar((x,))
        if c1 is False:
            if c2 is True:
                return vv()
            if c2 is False:
                return ar((sub(x, m),))
            return ite(c2, vv(), ar((sub(x, m),)))
        return ite(c1, ar((x,)), ite(c2, vv(), ar((sub(x, m),))))
    return Arr.new((add(a.shape[0], m),), f, dt)


def np_where(interp, *a):
    if len(a) == 1:
        return arrays.nonzero(to_arr(interp, a[0]))
    m, x, y = [arr_or_scalar(interp, v) for v in a]
    dt = arrays.result_dtype('num', [dtype_of(x), dtype_of(y)]) if dtype_of(x) != 'b' or dtype_of(y) != 'b' else 'b'
    f = (lambda c, p, q: ite(c, toreal(p), toreal(q))) if dt == 'f' else ite
    r = elementwise(f, [m, x, y], 'num', dt)
    return r


def np_bincount(interp, ids, weights=None, minlength=0):
    ids = to_arr(interp, ids)
    c = vc()
    n = ids.shape[0]
    ird = ids.reader()
    # equal chunks?  ids[i] == i div m
    if is_conc(n):
        vals = [ird((i,)) for i in range(n)]
        if not all(is_conc(v) for v in vals):
            raise Unsupported('bincount of symbolic ids')
        mx = max(vals) + 1 if vals else 0
        size = max(mx, minlength if is_conc(minlength) else 0)
        starts, counts, ok = {}, {}, True
        for i, v in enumerate(vals):
            if v < 0:
                raise PyRaise(ValueError, ('negative',))
            if v in starts and vals[i - 1] != v:
                ok = False
                break
            starts.setdefault(v, i)
            counts[v] = counts.get(v, 0) + 1
        if weights is None:
            return arrays.from_seq([counts.get(j, 0) for j in range(size)])
        w = to_arr(interp, weights)
        if not dim_eq(w.shape[0], n):
            c.safety('bincount: weights and ids have the same length', cmp('==', w.shape[0], n), ValueError)
        wr = w.reader()
        if ok:
            m = counts.get(0, 0)
            if m and all(counts.get(j) == m and starts[j] == j * m for j in range(size)):
                return Arr.new((size,), lambda i: c.sums.range_sum(lambda j: toreal(wr((j,))), mul(m, i[0]), add(mul(m, i[0]), m)), 'f')
            out = []

            def f(i):
                if is_conc(i[0]):
                    j = i[0]
                    return c.sums.range_sum(lambda x: toreal(wr((x,))), starts.get(j, 0), starts.get(j, 0) + counts.get(j, 0))
                lo = arrays.select([starts.get(j, 0) for j in range(size)], i[0])
                hi = arrays.select([starts.get(j, 0) + counts.get(j, 0) for j in range(size)], i[0])
                return c.sums.range_sum(lambda x: toreal(wr((x,))), lo, hi)
            return Arr.new((size,), f, 'f')
    raise Unsupported('bincount')


def np_diff(interp, a, n=1, axis=-1):
    a = to_arr(interp, a)
    if n != 1:
        raise Unsupported('diff order')
    ax = axis % a.ndim
    rd = a.reader()
    sh = tuple(sub(s, 1) if d == ax else s for d, s in enumerate(a.shape))
    bump = lambda i: tuple(add(x, 1) if d == ax else x for d, x in enumerate(i))
    if a.dtype == 'b':
        return Arr.new(sh, lambda i: cmp('!=', rd(bump(i)), rd(i)), 'b')
    return Arr.new(sh, lambda i: sub(rd(bump(i)), rd(i)), a.dtype)


def stack_cols(interp, parts, axis=1):
    ps = [to_arr(interp, p) for p in interp.iterate(parts)]
    if any(p.ndim != 1 for p in ps):
        raise Unsupported('column_stack of nd')
    for p in ps[1:]:
        if not dim_eq(p.shape[0], ps[0].shape[0]):
            vc().safety('stacked lengths agree', cmp('==', p.shape[0], ps[0].shape[0]), ValueError)
    rds = [p.reader() for p in ps]
    dt = 'f' if any(p.dtype == 'f' for p in ps) else ps[0].dtype
    conv = toreal if dt == 'f' else (lambda x: x)
    k = len(ps)
    if axis in (1, -1):
        return Arr.new((ps[0].shape[0], k), lambda i: pick([conv(r((i[0],))) for r in rds] if not is_conc(i[1]) else [conv(rds[i[1]]((i[0],)))], i[1] if not is_conc(i[1]) else 0), dt)
    return Arr.new((k, ps[0].shape[0]), lambda i: arrays.select([conv(r((i[1],))) for r in rds], i[0]), dt)


def pick(xs, i):
    return arrays.select(xs, i)


def np_fillscan(a, direction):
    """forward/backward fill of missing values"""
    rd = a.reader()
    n = a.shape[0]
    c = vc()
    g = c.int('g')
    probe = rd((g,))
    if nanof(probe) is None:
        return a.copy()
    inr = land(cmp('>=', g, 0), cmp('<', g, n))
    with c.assuming([inr]):
        if c.entails_raw(BT(core.finite(probe)), timeout=5000, deep=True):
            return Arr.new(a.shape, lambda i: strip(rd(i)), a.dtype)
    nm = c.fresh_name('fill')
    I = z3.IntSort()
    F = z3.Function(nm, I, I)
    fwd = direction == 'f'

    def facts(args):
        i = S(args[0])
        j = S(F(args[0]))
        inb = land(cmp('>=', i, 0), cmp('<', i, n))
        none = cmp('==', j, -1)
        okj = conj([land(cmp('>=', j, 0), cmp('<', j, n)), cmp('<=', j, i) if fwd else cmp('>=', j, i), core.finite(rd((j,)))])
        fs = [implies(inb, lor(none, okj)),
              implies(land(inb, core.finite(rd((i,)))), cmp('==', j, i))]
        for q in list(c.points1) + [g for g in getattr(c, 'fillpoints', [])]:
            inq = land(cmp('>=', q, 0), cmp('<', q, n))
            side = land(cmp('<=', q, i), cmp('>', q, j)) if fwd else land(cmp('>=', q, i), lor(none, cmp('<', q, j)))
            fs.append(implies(conj([inb, inq, side]), lnot(core.finite(rd((q,))))))
        return fs
    c.on_app[nm] = facts
    c.assumed.add('fillna repairs missing values; a non-finite value of another origin is treated as missing')

    def out(i):
        j = S(F(T(i[0])))
        v = rd((j,))
        return withnan(strip(v), z3.simplify(j.t == -1))
    return Arr.new(a.shape, out, a.dtype)


def np_cumsum(interp, a, axis=None):
    a = to_arr(interp, a)
    if a.ndim != 1:
        raise Unsupported('cumsum nd')
    rd = a.reader()
    return Arr.new(a.shape, lambda i: vc().sums.range_sum(lambda j: toreal(rd((j,))), 0, add(i[0], 1)), 'f')


def numpy(interp):
    m = Module('numpy')
    ns = m.ns

    def ew(fn, kind='num', dtype=None):
        def call(*a, **k):
            out = k.pop('out', None)
            where = k.pop('where', None)
            k.pop('dtype', None)
            if k or out is not None or where is not None:
                raise Unsupported('ufunc keywords')
            a = [arr_or_scalar(interp, x) for x in a]
            wrapper = next((x for x in a if getattr(x, 'wrapper', None)), None)
            return elementwise(fn, a, kind, dtype)
        return call

    def ser(fn):
        """apply to Series keeping the label type"""
        def call(*a, **k):
            ss = [x for x in a if isinstance(x, Series)]
            r = fn(*a, **k)
            if ss and isinstance(r, Arr) and r.ndim == 1:
                return Series(r, ss[0].index, ss[0].name)
            das = [x for x in a if getattr(x, 'is_dataarray', False)]
            if das and isinstance(r, Arr):
                return das[0].like(r)
            return r
        return B(call, getattr(fn, '__name__', ''))
    for n, f in {'exp': lambda x: uf('exp', x), 'sqrt': lambda x: uf('sqrt', x), 'cos': lambda x: uf('cos', x),
                 'sin': lambda x: uf('sin', x), 'arccos': lambda x: uf('arccos', x), 'log': lambda x: uf('log', x)}.items():
        ns[n] = ser(ew(f, 'div'))
    ns['power'] = ser(ew(power))
    ns['float_power'] = ser(ew(lambda a, b: toreal(power(a, b))))
    ns['square'] = ser(ew(lambda x: mul(x, x)))
    ns['abs'] = ns['absolute'] = ns['fabs'] = ser(ew(core.absval))
    ns['maximum'] = ser(ew(maximum))
    ns['minimum'] = ser(ew(minimum))
    ns['fmax'] = ns['maximum']
    ns['fmin'] = ns['minimum']
    ns['add'] = ser(ew(add))
    ns['subtract'] = ser(ew(sub))
    ns['multiply'] = ser(ew(mul))
    ns['divide'] = ns['true_divide'] = ser(ew(div, 'div'))
    ns['negative'] = ser(ew(lambda x: mul(-1, x)))
    ns['mod'] = ns['remainder'] = ser(ew(core.mod))
    ns['floor_divide'] = ser(ew(core.floordiv))
    ns['floor'] = ser(ew(lambda x: toreal(floor_(x)), 'div'))
    ns['ceil'] = ser(ew(lambda x: toreal(ceil_(x)), 'div'))
    ns['trunc'] = ns['fix'] = ser(ew(lambda x: toreal(toint(x)), 'div'))
    ns['logical_and'] = ser(ew(land, 'logic'))
    ns['logical_or'] = ser(ew(lor, 'logic'))
    ns['logical_not'] = ser(ew(lnot, 'logic'))
    for n, o in {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==', 'not_equal': '!='}.items():
        ns[n] = ser(ew((lambda o: lambda a, b: cmp(o, a, b))(o), 'cmp'))
    ns['isnan'] = ser(ew(lambda x: lnot(core.finite(x)), 'cmp'))
    ns['isfinite'] = ser(ew(core.finite, 'cmp'))
    ns['deg2rad'] = ns['radians'] = ser(ew(lambda x: div(mul(x, core.pi()), 180), 'div'))

    def clip(a, lo=None, hi=None, **k):
        if k.get('a_min') is not None or k.get('a_max') is not None:
            lo, hi = k.get('a_min', lo), k.get('a_max', hi)
        r = a
        if lo is not None:
            r = interp.call(ns['maximum'], [r, lo], {})
        if hi is not None:
            r = interp.call(ns['minimum'], [r, hi], {})
        return r
    ns['clip'] = B(clip)

    def full(shape, v, dtype=None, **k):
        dt = as_dtype(dtype) or dtype_of(v)
        v = {'f': toreal, 'i': toint, 'b': lambda x: x}[dt](v) if not isinstance(v, Arr) else v
        if isinstance(v, Arr):
            raise Unsupported('full with array')
        return arrays.const_arr(shape_of(interp, shape), v, dt)

    def zeros(shape, dtype=None, **k):
        return full(shape, Fraction(0) if as_dtype(dtype) in (None, 'f') else 0, dtype) if as_dtype(dtype) != 'b' else full(shape, False, dtype)
    ns['full'] = B(full)
    ns['zeros'] = B(zeros)
    ns['ones'] = B(lambda shape, dtype=None, **k: full(shape, Fraction(1) if as_dtype(dtype) in (None, 'f') else (True if as_dtype(dtype) == 'b' else 1), dtype))

    def empty(shape, dtype=None, **k):
        from .interp import c_fresh_array
        return c_fresh_array(shape_of(interp, shape), 'empty', as_dtype(dtype) or 'f')
    ns['empty'] = B(empty)

    def like(v):
        def f(a, dtype=None, **k):
            a = to_arr(interp, a)
            dt = as_dtype(dtype) or a.dtype
            return arrays.const_arr(a.shape, Fraction(v) if dt == 'f' else (bool(v) if dt == 'b' else v), dt)
        return B(f)
    ns['zeros_like'], ns['ones_like'] = like(0), like(1)
    ns['empty_like'] = B(lambda a, dtype=None, **k: empty(to_arr(interp, a).shape, dtype or {'f': 'f8', 'i': 'i8', 'b': 'b1'}[to_arr(interp, a).dtype]))
    ns['full_like'] = B(lambda a, v, dtype=None, **k: full(to_arr(interp, a).shape, toreal(v) if (as_dtype(dtype) or to_arr(interp, a).dtype) == 'f' else v, dtype or {'f': 'f8', 'i': 'i8', 'b': 'b1'}[to_arr(interp, a).dtype]))
    ns['array'] = B(lambda a, dtype=None, **k: cast(to_arr(interp, a).copy(), as_dtype(dtype)))
    ns['asarray'] = ns['ascontiguousarray'] = ns['asanyarray'] = B(lambda a, dtype=None, **k: cast(to_arr(interp, a), as_dtype(dtype)))
    ns['atleast_1d'] = B(lambda a: (lambda x: x if x.ndim else ravel(x))(to_arr(interp, a)))
    ns['copy'] = B(lambda a, **k: to_arr(interp, a).copy())
    ns['arange'] = B(lambda *a, **k: np_arange(interp, *a, **k))
    ns['linspace'] = B(lambda *a, **k: np_linspace(interp, *a, **k))
    ns['repeat'] = B(lambda *a, **k: np_repeat(interp, *a, **k))
    ns['tile'] = B(lambda *a, **k: np_tile(interp, *a, **k))
    ns['roll'] = B(lambda *a, **k: np_roll(interp, *a, **k))

    def red(f):
        def call(a, axis=None, **k):
            k.pop('keepdims', None) if k.get('keepdims') is False else None
            if k:
                raise Unsupported('reduction keywords')
            return f(interp, a, axis)
        return B(call)
    ns['sum'], ns['mean'] = red(np_sum), red(np_mean)
    ns['average'] = ns['mean']
    ns['max'] = ns['amax'] = B(lambda a, axis=None: np_extreme(interp, a, 'max', axis))
    ns['min'] = ns['amin'] = B(lambda a, axis=None: np_extreme(interp, a, 'min', axis))
    ns['any'] = B(lambda a, **k: np_any(interp, a))
    ns['all'] = B(lambda a, **k: np_any(interp, a, neg=True))
    ns['diff'] = B(lambda *a, **k: np_diff(interp, *a, **k))
    ns['where'] = ser(lambda *a: np_where(interp, *a))
    ns['nonzero'] = B(lambda a: arrays.nonzero(to_arr(interp, a)))
    ns['flatnonzero'] = B(lambda a: arrays.nonzero(ravel(to_arr(interp, a)))[0])
    ns['argwhere'] = B(lambda a: stack_cols(interp, arrays.nonzero(to_arr(interp, a))))
    ns['insert'] = B(lambda a, p, v, **k: np_insert(interp, a, p, v))
    ns['append'] = B(lambda a, v, **k: concat(interp, [flat1(interp, a), flat1(interp, v)]))
    ns['concatenate'] = B(lambda ps, axis=0, **k: concat(interp, ps, axis))
    ns['hstack'] = B(lambda ps: concat(interp, [flat1(interp, p) for p in interp.iterate(ps)]))
    ns['column_stack'] = B(lambda ps: stack_cols(interp, ps))
    ns['vstack'] = B(lambda ps: stack_cols(interp, ps, 0))
    ns['stack'] = B(lambda ps, axis=0: stack_cols(interp, ps, axis))

    class CObj:
        def vgetitem(self, interp, k):
            return concat(interp, [flat1(interp, p) for p in (k if isinstance(k, tuple) else (k,))])
    ns['r_'] = CObj()
    ns['ravel'] = B(lambda a, **k: ravel(to_arr(interp, a)))
    ns['reshape'] = B(lambda a, s, **k: reshape(interp, a, s))
    ns['squeeze'] = B(lambda a: squeeze(to_arr(interp, a)))
    ns['bincount'] = B(lambda *a, **k: np_bincount(interp, *a, **k))
    ns['cumsum'] = B(lambda a, axis=None: np_cumsum(interp, a, axis))
    ns['size'] = B(lambda a: to_arr(interp, a).size)
    ns['shape'] = B(lambda a: to_arr(interp, a).shape)
    ns['ndim'] = B(lambda a: to_arr(interp, a).ndim)

    def gridseq(sh, f):
        n = 1
        for s in sh:
            n = mul(n, s)
        r = SymSeq(n, lambda k: f(tuple(k) if isinstance(k, tuple) else unflatten(sh, k)))
        r.multi = tuple(sh)
        return r

    def ndindex(*sh):
        sh = shape_of(interp, sh[0] if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh)
        if all(is_conc(s) for s in sh):
            return [tuple(x) for x in _it.product(*[range(s) for s in sh])]
        return gridseq(sh, lambda ix: ix)
    ns['ndindex'] = B(ndindex)

    def ndenumerate(a):
        a = to_arr(interp, a)
        if all(is_conc(s) for s in a.shape):
            return [(ix, a.get(ix)) for ix in _it.product(*[range(s) for s in a.shape])]
        rd = a.reader()
        return gridseq(a.shape, lambda ix: (ix, rd(ix)))
    ns['ndenumerate'] = B(ndenumerate)
    ns['nan'] = ns['NaN'] = nan_()
    ns['inf'] = nan_()
    ns['newaxis'] = None
    m.dynamic = lambda n: core.pi() if n == 'pi' else None
    isf = lambda x: isinstance(x, Fraction) or isinstance(x, S) and not x.is_int and not x.is_bool
    fl = lambda x=Fraction(0): cast(x, 'f') if isinstance(x, Arr) else to_float(x)
    il = lambda x=0: cast(x, 'i') if isinstance(x, Arr) else to_int(x)
    for n in ('float64', 'float32', 'float16', 'float128', 'float_', 'double', 'single', 'floating', 'longdouble'):
        ns[n] = TypeTok(n, isf, fl, 'f')
    for n in ('int64', 'int32', 'int16', 'int8', 'uint16', 'uint32', 'uint8', 'int_', 'intp', 'integer', 'uint64'):
        ns[n] = TypeTok(n, isint, il, 'i')
    ns['bool_'] = TypeTok('bool_', lambda x: isinstance(x, bool), None, 'b')
    ns['number'] = TypeTok('number', lambda x: is_scalar(x))
    ns['ndarray'] = TypeTok('ndarray', lambda x: isinstance(x, Arr))
    ns['generic'] = TypeTok('generic', lambda x: False)
    ns['datetime64'] = TypeTok('datetime64', lambda x: isinstance(x, TS), lambda x: x)
    ns['timedelta64'] = TypeTok('timedelta64', lambda x: isinstance(x, TD), lambda n, u: TD(mul(n, {'m': 1, 'h': 60, 'D': 1440}[u])))
    ns['isscalar'] = B(lambda x: is_scalar(x))
    ns['dtype'] = B(lambda d: d)

    class _err:
        def venter(self, interp):
            return None

        def vexit(self, interp):
            return None
    ns['errstate'] = B(lambda **k: _err())
    ns['seterr'] = B(lambda **k: None)
    ft = Module('numpy.add')
    return m




def flat1(interp, a):
    a = to_arr(interp, a)
    return a if a.ndim == 1 else ravel(a)


def squeeze(a):
    ax = [i for i, s in enumerate(a.shape) if is_conc(s) and s == 1]
    for i in reversed(ax):
        a = a.pick(i, 0)
    return a


def text_number(x):
    """text standing for an arbitrary number"""
    if not any('\ue000' <= ch <= '\uf8ff' for ch in x):
        return None
    v = vc().text.get(x.strip())
    if v is None:
        raise Unsupported('number in an arbitrary text')
    return v


def number_text(v):
    c = vc()
    for ch, x in c.text.items():
        if x.t.eq(v.t):
            return ch
    ch = chr(0xF000 + len(c.text))
    c.text[ch] = v
    return ch


def to_float(x):
    if isinstance(x, str):
        v = text_number(x)
        if v is not None:
            return toreal(v)
        try:
            f = float(x)
        except ValueError:
            raise PyRaise(ValueError, ('could not convert string to float',))
        if f != f or f in (float('inf'), float('-inf')):
            return nan_()
        return Fraction(x.strip()) if set(x.strip()) <= set('0123456789.-+eE') else Fraction(repr(f))
    if isinstance(x, Arr):
        if x.ndim == 0 or all(is_conc(s) and s == 1 for s in x.shape):
            return toreal(x.at(*([0] * x.ndim)))
        raise PyRaise(TypeError, ('only size-1 arrays can be converted',))
    if is_scalar(x):
        return toreal(x)
    h = getattr(x, 'vfloat', None)
    if h:
        return h()
    if x is None or isinstance(x, (list, dict, tuple)):
        raise PyRaise(TypeError, ('float() argument',))
    raise Unsupported('float(%s)' % type(x).__name__)


def to_int(x=0, base=None):
    if isinstance(x, str):
        v = text_number(x)
        if v is not None:
            if not v.is_int:
                raise Unsupported('int() of a decimal text')
            return v
        try:
            return int(x) if base is None else int(x, base)
        except ValueError:
            raise PyRaise(ValueError, ('invalid literal for int()',))
    if isinstance(x, Arr):
        if x.ndim == 0 or all(is_conc(s) and s == 1 for s in x.shape):
            return toint(x.at(*([0] * x.ndim)))
        raise PyRaise(TypeError, ('only size-1 arrays can be converted',))
    if is_scalar(x):
        return toint(x)
    h = getattr(x, 'vint', None)
    if h:
        return h()
    if x is None or isinstance(x, (list, dict, tuple)):
        raise PyRaise(TypeError, ('int() argument',))
    raise Unsupported('int(%s)' % type(x).__name__)


# ----------------------------------------------------------------- pandas
def parse_td(s):
    """Timedelta string -> minutes"""
    p = s.split()
    if len(p) == 1:
        import re
        m = re.match(r'^(-?[0-9.]+)?\s*([A-Za-z]+)$', s)
        if not m:
            raise Unsupported('timedelta %r' % s)
        p = [m.group(1) or '1', m.group(2)]
    try:
        n = Fraction(p[0])
    except ValueError:
        raise PyRaise(ValueError, ('timedelta',))
    u = p[1]
    k = {'minutes': 1, 'minute': 1, 'min': 1, 'T': 1, 'm': 1, 'hours': 60, 'hour': 60, 'H': 60, 'h': 60, 'hr': 60,
         'days': 1440, 'day': 1440, 'D': 1440, 'd': 1440, 's': Fraction(1, 60), 'seconds': Fraction(1, 60)}.get(u)
    if k is None:
        raise Unsupported('timedelta unit %r' % u)
    r = n * k
    return int(r) if r.denominator == 1 else r


class TD:
    def __init__(self, m):
        self.m = m

    def vbin(self, interp, op, o, refl):
        if isinstance(o, TD):
            a, b = (o.m, self.m) if refl else (self.m, o.m)
            if op in '+-':
                return TD(add(a, b) if op == '+' else sub(a, b))
            if op == '/':
                return div(toreal(a), toreal(b))
            if op == '//':
                return core.floordiv(a, b)
        if is_scalar(o):
            if op == '*':
                return TD(mul(self.m, o))
            if op == '/' and not refl and is_conc(o) and is_conc(self.m) and Fraction(self.m, o).denominator == 1:
                return TD(int(Fraction(self.m) / o))
        return NotImplemented

    def vcmp(self, interp, op, o):
        if isinstance(o, TD):
            return cmp(op, self.m, o.m)
        return NotImplemented

    def vneg(self, interp):
        return TD(mul(-1, self.m))

    def vattr(self, interp, n):
        if n == 'total_seconds':
            return B(lambda: toreal(mul(60, self.m)))
        if n == 'days':
            return core.floordiv(self.m, 1440)
        return NotImplemented


I_ = z3.IntSort()
DOY = z3.Function('DOY', I_, I_)
MONTH = z3.Function('MONTH', I_, I_)
YEAR = z3.Function('YEAR', I_, I_)
DAYOM = z3.Function('DAYOM', I_, I_)


def cal(f, lo, hi, m):
    d = T(core.floordiv(m, 1440)) if not (isinstance(m, tuple)) else None
    from .sums import simp
    d = simp(vc(), d)
    app = f(d)
    c = vc()
    c.on_app.setdefault(f.name(), lambda args: [S(z3.And(f(args[0]) >= lo, f(args[0]) <= hi))])
    c.assumed.add('pandas calendar arithmetic: dayofyear in 1..366, month in 1..12, functions of the calendar day')
    return S(app)


def doy(m):
    return cal(DOY, 1, 366, m)


def month(m):
    return cal(MONTH, 1, 12, m)


class TS:
    """time stamp: whole minutes"""
    def __init__(self, m):
        self.m = m

    def vbin(self, interp, op, o, refl):
        if isinstance(o, TD):
            if op == '+':
                return TS(add(self.m, o.m))
            if op == '-' and not refl:
                return TS(sub(self.m, o.m))
        if isinstance(o, TS) and op == '-':
            a, b = (o.m, self.m) if refl else (self.m, o.m)
            return TD(sub(a, b))
        return NotImplemented

    def vaug(self, interp, op, o):
        return self.vbin(interp, op, o, False)

    def vcmp(self, interp, op, o):
        if isinstance(o, TS):
            return cmp(op, self.m, o.m)
        if isinstance(o, DTIndex):
            fl = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
            return o.vcmp(interp, fl, self)
        return NotImplemented

    def vattr(self, interp, n):
        if n == 'dayofyear' or n == 'day_of_year':
            return doy(self.m)
        if n == 'month':
            return month(self.m)
        if n == 'year':
            return cal(YEAR, 1, 9999, self.m)
        if n == 'day':
            return cal(DAYOM, 1, 31, self.m)
        if n in ('to_pydatetime', 'to_datetime64', 'copy'):
            return B(lambda: self)
        if n in ('normalize',):
            return B(lambda: TS(mul(1440, core.floordiv(self.m, 1440))))
        if n == 'values':
            return self
        if n == 'minute':
            return core.mod(self.m, 60)
        if n == 'hour':
            return core.floordiv(core.mod(self.m, 1440), 60)
        if n == 'second':
            return 0
        if n == 'strftime':
            return B(lambda f: self.vformat(interp, f))
        return NotImplemented

    def vformat(self, interp, spec):
        if not spec:
            raise Unsupported('text of a time stamp')
        import re
        out = re.sub('%(.)', lambda m: {'%': '%'}.get(m.group(1)) or interp.fmt(*self.part(interp, m.group(1))), spec)
        return out

    def part(self, interp, d):
        if d not in 'YmdHMSj':
            raise Unsupported('strftime %' + d)
        n, w = {'Y': ('year', '04'), 'm': ('month', '02'), 'd': ('day', '02'), 'H': ('hour', '02'), 'M': ('minute', '02'), 'S': ('second', '02'), 'j': ('dayofyear', '03')}[d]
        return self.vattr(interp, n), w


class Offset:
    """pandas frequency: a fixed number of minutes (Tick) or a calendar one"""
    def __init__(self, text, m, unit=None):
        self.text, self.m, self.unit = text, m, unit

    def vcmp(self, interp, op, o):
        if isinstance(o, (Offset, TD)):
            if self.m is None or o.m is None:
                raise Unsupported('order of calendar offsets')
            return cmp(op, self.m, o.m)
        return NotImplemented

    def vattr(self, interp, n):
        if n == 'n' and self.m is not None:
            raise Unsupported('multiple of an offset')
        return NotImplemented


def to_offset(interp, f):
    if f is None or isinstance(f, Offset):
        return f
    if isinstance(f, TD):
        return Offset('', f.m)
    if not isinstance(f, str):
        raise Unsupported('frequency')
    import re
    m = re.fullmatch(r'(\d*)([A-Za-z]+)(-[A-Z]+)?', f)
    if not m:
        raise PyRaise(ValueError, ('Invalid frequency: %s' % f,))
    u = {'D': 1440, 'H': 60, 'h': 60, 'T': 1, 'min': 1}.get(m.group(2))
    if u is None and m.group(2) not in ('M', 'MS', 'ME', 'A', 'AS', 'Y', 'YS', 'YE', 'W', 'Q', 'QS', 'QE', 'SM', 'SMS'):
        raise Unsupported('frequency %s' % f)
    return Offset(f, u and u * int(m.group(1) or 1), u)


class Grouper:
    def __init__(self, off):
        self.off = off


class Groups:
    """pandas: an ordered time axis split by a frequency: consecutive, possibly
    empty pieces; groups of whole days never split a calendar day"""
    def __init__(self, s, off):
        if not isinstance(s.index, DTIndex):
            raise Unsupported('grouping without a time axis')
        c = vc()
        if c.loops:
            raise Unsupported('grouping in a summarised loop')
        self.s, self.off = s, off
        nm = c.fresh_name('groups')
        I = z3.IntSort()
        self.G = c.int(nm + '.n')
        self.B = z3.Function(nm + '.start', I, I)
        self.ID = z3.Function(nm + '.of', I, I)
        N = self.N = s.index.n
        c.axiom(implies(cmp('>=', N, 1), cmp('>=', self.G, 1)))
        c.axiom(conj([cmp('>=', self.G, 0), cmp('==', self.start(0), 0), cmp('==', self.start(self.G), N)]))
        c.on_app[self.ID.name()] = lambda a: [implies(land(cmp('>=', S(a[0]), 0), cmp('<', S(a[0]), N)), self.holds(self.of(S(a[0])), S(a[0])))]
        c.assumed.add('pandas grouping by frequency: consecutive pieces that cover the axis in order, possibly empty ones; pieces of whole days or calendar periods never split a day')
        c.groupings = getattr(c, 'groupings', []) + [self]

    def start(self, g):
        return S(self.B(T(g)))

    def of(self, p):
        return S(self.ID(T(p)))

    def holds(self, g, p):
        return conj([cmp('>=', g, 0), cmp('<', g, self.G), cmp('<=', self.start(g), p), cmp('<', p, self.start(add(g, 1)))])

    def order(self, g1, g2):
        """starts never decrease"""
        return implies(conj([cmp('>=', g1, 0), cmp('<=', g1, g2), cmp('<=', g2, self.G)]), cmp('<=', self.start(g1), self.start(g2)))

    def whole_days(self):
        return self.off.m is None or self.off.m % 1440 == 0

    def day_fact(self, p, q):
        """two positions of one calendar day lie in one group"""
        if not self.whole_days():
            return True
        ins = [land(cmp('>=', x, 0), cmp('<', x, self.N)) for x in (p, q)]
        d = [core.floordiv(self.s.index.at(x), 1440) for x in (p, q)]
        return implies(conj(ins + [cmp('==', d[0], d[1])]), cmp('==', self.of(p), self.of(q)))

    def vseq(self, interp):
        def elem(g):
            lo, hi = self.start(g), self.start(add(g, 1))
            vc().axiom(implies(land(cmp('>=', g, 0), cmp('<', g, self.G)), conj([cmp('>=', lo, 0), cmp('<=', lo, hi), cmp('<=', hi, self.N)])))
            ix = DTIndex(self.s.index.at(lo), self.s.index.step, sub(hi, lo))
            ix.piece = (self, g)
            rd = self.s.arr.reader()
            return (TS(S(z3.Int('%s.label(%s)' % (self.B.name(), T(g))))), Series(Arr.new((ix.n,), lambda i: rd((add(lo, i[0]),)), self.s.arr.dtype), ix))
        return SymSeq(self.G, elem)

    def vattr(self, interp, n):
        return NotImplemented


class DTIndex:
    """evenly spaced time axis: start + step*i, i < n"""
    def __init__(self, start, step, n):
        self.start, self.step, self.n = start, step, n

    def at(self, i):
        return add(self.start, mul(self.step, i))

    def vgetitem(self, interp, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('index slice step')
            lo, hi = arrays.clip_slice(k.start, k.stop, self.n)
            return DTIndex(self.at(lo), self.step, sub(hi, lo))
        if isinstance(k, (list, tuple)):
            return VList([self.vgetitem(interp, x) for x in k])
        if not isint(k):
            raise Unsupported('time index key')
        if is_conc(k) and k < 0:
            k = add(self.n, k)
        vc().safety('time index within bounds', land(cmp('>=', k, 0), cmp('<', k, self.n)), IndexError)
        return TS(self.at(k))

    def vseq(self, interp):
        return SymSeq(self.n, lambda k: TS(self.at(k)))

    def vlen(self):
        return self.n

    def vbin(self, interp, op, o, refl):
        if isinstance(o, TD) and (op == '+' or op == '-' and not refl):
            return DTIndex(add(self.start, o.m) if op == '+' else sub(self.start, o.m), self.step, self.n)
        return NotImplemented

    def vaug(self, interp, op, o):
        return self.vbin(interp, op, o, False)

    def vcmp(self, interp, op, o):
        if isinstance(o, TS):
            return Arr.new((self.n,), lambda i: cmp(op, self.at(i[0]), o.m), 'b')
        return NotImplemented

    def vattr(self, interp, n):
        if n in ('dayofyear', 'day_of_year'):
            return Arr.new((self.n,), lambda i: doy(self.at(i[0])), 'i')
        if n == 'month':
            return Arr.new((self.n,), lambda i: month(self.at(i[0])), 'i')
        if n in ('values', 'copy', 'index'):
            return self if n != 'copy' else B(lambda: self)
        if n == 'size':
            return self.n
        if n == 'shape':
            return (self.n,)
        if n == 'min':
            return B(lambda: TS(self.start))
        if n == 'max':
            return B(lambda: TS(self.at(sub(self.n, 1))))
        if n == 'hour':
            return Arr.new((self.n,), lambda i: core.floordiv(core.mod(self.at(i[0]), 1440), 60), 'i')
        if n == 'minute':
            return Arr.new((self.n,), lambda i: core.mod(self.at(i[0]), 60), 'i')
        if n == 'to_pydatetime':
            return B(lambda: self)
        if n in ('round', 'floor', 'normalize'):
            return B(lambda f='D': self.whole_days(n, f))
        return NotImplemented

    def whole_days(self, how, f):
        if f not in ('D', '1D', 'd') or not (is_conc(self.step) and self.step % 1440 == 0):
            raise Unsupported('rounding of a time axis')
        c = vc()
        r, x = c.int('day'), self.start
        if how == 'round':      # to the nearest day, ties to the even one
            c.assume(conj([cmp('>=', sub(x, mul(1440, r)), -720), cmp('<=', sub(x, mul(1440, r)), 720),
                           implies(lor(cmp('==', sub(x, mul(1440, r)), -720), cmp('==', sub(x, mul(1440, r)), 720)), cmp('==', core.mod(r, 2), 0))]))
        else:
            c.assume(conj([cmp('>=', sub(x, mul(1440, r)), 0), cmp('<', sub(x, mul(1440, r)), 1440)]))
        return DTIndex(mul(1440, r), self.step, self.n)

    def pos(self, m):
        """position of a label: (present, i)"""
        from .sums import simp
        d = lift(simp(vc(), z3.simplify(T(sub(m, self.start)))))
        if is_conc(self.step) and self.step == 1:
            i, exact = d, True
        else:
            i = lift(simp(vc(), T(core.floordiv(d, self.step))))
            exact = cmp('==', core.mod(d, self.step), 0)
        return conj([exact, cmp('>=', i, 0), cmp('<', i, self.n)]), i

    def loc_slice(self, a, b):
        """positions [lo, hi) of labels a..b inclusive"""
        lo, hi = 0, self.n
        if a is not None:
            lo = core.floordiv(add(sub(a.m, self.start), sub(self.step, 1)), self.step)
            lo = self._cl(lo)
        if b is not None:
            hi = add(core.floordiv(sub(b.m, self.start), self.step), 1)
            hi = self._cl(hi)
        return lo, hi

    def _cl(self, x):
        from .sums import simp
        if isinstance(x, S):
            x = lift(simp(vc(), x.t))
        e = vc().entails
        if not e(cmp('>=', x, 0)):
            x = maximum(x, 0)
        if not e(cmp('<=', x, self.n)):
            x = minimum(x, self.n)
        return x


def same_index(a, b):
    if a is b:
        return True
    if isinstance(a, DTIndex) and isinstance(b, DTIndex):
        return all(dim_eq(x, y) for x, y in ((a.start, b.start), (a.step, b.step), (a.n, b.n)))
    if isinstance(a, RangeIndex) and isinstance(b, RangeIndex):
        return dim_eq(a.n, b.n)
    return False


class RangeIndex:
    def __init__(self, n):
        self.n = n

    def part(self, lo, hi):
        if not (is_conc(lo) and lo == 0):
            raise Unsupported('rows from the middle of a numbered table')
        return RangeIndex(sub(hi, lo))

    def vlen(self):
        return self.n

    def vseq(self, interp):
        return SymSeq(self.n, lambda k: k)

    def pos(self, k):
        return land(cmp('>=', k, 0), cmp('<', k, self.n)), k

    def vattr(self, interp, n):
        if n == 'values':
            return Arr.new((self.n,), lambda i: i[0], 'i')
        return NotImplemented

    def vgetitem(self, interp, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('index slice step')
            return self.part(*arrays.clip_slice(k.start, k.stop, self.n))
        if is_conc(k) and k < 0:
            return add(self.n, k)
        return k


class Series:
    def __init__(self, arr, index, name=None):
        self.arr, self.index, self.name = arr, index, name

    def varr(self, interp):
        return self.arr

    def wrap(self, a):
        return Series(a, self.index, self.name)

    def vlen(self):
        return self.arr.shape[0]

    def aligned(self, o):
        if isinstance(o, Series):
            if not same_index(self.index, o.index):
                raise Unsupported('arithmetic of differently indexed series')
            return o.arr
        return o

    def vbin(self, interp, op, o, refl):
        if isinstance(o, (Series, Arr, DTIndex, list)) or is_scalar(o):
            if isinstance(o, DTIndex):
                return NotImplemented
            b = self.aligned(o)
            r = interp.binop(op, b, self.arr) if refl else interp.binop(op, self.arr, b)
            return self.wrap(r)
        return NotImplemented

    def vaug(self, interp, op, o):
        b = self.aligned(o)
        interp.augment(op, self.arr, b)
        return self

    def vcmp(self, interp, op, o):
        return self.wrap(interp.cmpop(op, self.arr, self.aligned(o)))

    def vneg(self, interp):
        return self.wrap(elementwise(lambda x: mul(-1, x), [self.arr]))

    def vinvert(self, interp):
        return self.wrap(elementwise(lnot, [self.arr], 'logic'))

    def vtruth(self, interp):
        raise PyRaise(ValueError, ('truth value of a Series is ambiguous',))

    def vseq(self, interp):
        rd = self.arr.reader()
        return SymSeq(self.arr.shape[0], lambda k: rd((k,)))

    def vkeys(self, interp):
        raise Unsupported('series keys')

    def vcontains(self, interp, k):
        if isinstance(k, TS) and isinstance(self.index, DTIndex):
            return self.index.pos(k.m)[0]
        raise Unsupported('in series')

    def label(self, k):
        if isinstance(k, TS):
            if not isinstance(self.index, DTIndex):
                raise PyRaise(KeyError, ('timestamp',))
            return self.index.pos(k.m)
        if isint(k) and isinstance(self.index, RangeIndex):
            return self.index.pos(k)
        if isint(k) and isinstance(self.index, DTIndex):
            # integer keys fall back to positions on a time index
            if is_conc(k) and k < 0:
                k = add(self.index.n, k)
            return land(cmp('>=', k, 0), cmp('<', k, self.index.n)), k
        raise Unsupported('series key %s' % type(k).__name__)

    def vgetitem(self, interp, k):
        if isinstance(k, slice):
            if any(isinstance(x, TS) for x in (k.start, k.stop)):
                lo, hi = self.index.loc_slice(k.start, k.stop)
            else:
                lo, hi = arrays.clip_slice(k.start, k.stop, self.arr.shape[0])
            return Series(self.arr.slice0(lo, hi), self.index.vgetitem(interp, slice(lo, hi)), self.name)
        if isinstance(k, (Series, Arr)):
            m = k.arr if isinstance(k, Series) else k
            if m.dtype == 'b':
                return Series(arrays.compress(self.arr, m), RangeIndex(arrays.compress_info(m).cnt))
            return Series(self.arr.get(m), RangeIndex(m.shape[0]))
        ok, i = self.label(k)
        vc().safety('series label present', ok, KeyError)
        for L in vc().loops:
            if self.arr.buf.depth < L.depth:
                L.note_read(self.arr)
        return self.arr.at(i)

    def vsetitem(self, interp, k, v):
        if isinstance(k, (Series, Arr)):
            m = k.arr if isinstance(k, Series) else k
            self.arr.put(m, v.arr if isinstance(v, Series) else v)
            return
        ok, i = self.label(k)
        vc().safety('series label present', ok, KeyError)
        self.arr.put(i, v)

    def vattr(self, interp, n):
        if n == 'values' or n == 'array':
            return self.arr
        if n == 'index':
            return self.index
        if n == 'name':
            return self.name
        if n in ('size',):
            return self.arr.shape[0]
        if n == 'shape':
            return self.arr.shape
        if n == 'dtype':
            return 'float64' if self.arr.dtype == 'f' else 'int64'
        if n == 'items' or n == 'iteritems':
            rd = self.arr.reader()
            return B(lambda: SymSeq(self.arr.shape[0], lambda k: (TS(self.index.at(k)) if isinstance(self.index, DTIndex) else k, rd((k,)))))
        if n == 'copy':
            return B(lambda **k: self.wrap(self.arr.copy()))
        if n == 'to_numpy':
            return B(lambda **k: self.arr)
        if n == 'fillna':
            def fillna(value=None, method=None, **k):
                if k:
                    raise Unsupported('fillna keywords')
                if method in ('ffill', 'pad'):
                    return self.wrap(np_fillscan(self.arr, 'f'))
                if method in ('bfill', 'backfill'):
                    return self.wrap(np_fillscan(self.arr, 'b'))
                return self.wrap(elementwise(lambda x: ite(core.finite(x), strip(x), value), [self.arr]))
            return B(fillna)
        if n == 'ffill':
            return B(lambda **k: self.wrap(np_fillscan(self.arr, 'f')))
        if n == 'bfill':
            return B(lambda **k: self.wrap(np_fillscan(self.arr, 'b')))
        if n in ('loc', 'at'):
            return Loc(self)
        if n in ('iloc', 'iat'):
            return ILoc(self)
        if n in ('sum', 'mean', 'max', 'min', 'any', 'all'):
            return attribute(interp, self.arr, n)
        if n == 'clip':
            return B(lambda lower=None, upper=None: self.wrap(interp.call(interp.load('numpy').ns['clip'], [self.arr, lower, upper], {})))
        if n == 'astype':
            return B(lambda d, **k: self.wrap(cast(self.arr, as_dtype(d))))
        if n == 'isnull' or n == 'isna':
            return B(lambda: self.wrap(elementwise(lambda x: lnot(core.finite(x)), [self.arr], 'cmp')))
        if n == 'dt':
            raise Unsupported('.dt')
        if n == 'where':
            return B(lambda c, o=None: self.wrap(np_where(interp, c.arr if isinstance(c, Series) else c, self.arr, nan_() if o is None else (o.arr if isinstance(o, Series) else o))))
        if n == 'rolling':
            return B(lambda window, **k: Rolling(self, window, k))
        if n in ('groupby', 'resample'):
            def grp(f=None, **k):
                if k or (n == 'groupby') != isinstance(f, Grouper):
                    raise Unsupported(n)
                return Groups(self, f.off if n == 'groupby' else to_offset(interp, f))
            return B(grp)
        if n in ('add', 'sub', 'mul', 'div'):
            op = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[n]
            return B(lambda o: self.vbin(interp, op, o, False))
        if n == 'get':
            return B(lambda k, d=None: self.vgetitem(interp, k))
        return NotImplemented

    def vhavoc(self, interp, nm):
        from .interp import c_fresh_array
        return Series(c_fresh_array(self.arr.shape, nm, self.arr.dtype), self.index, self.name)


class Rolling:
    def __init__(self, s, w, kw):
        if set(kw) - {'min_periods'}:
            raise Unsupported('rolling keywords')
        self.s, self.w = s, w
        self.mp = kw.get('min_periods')
        if self.mp not in (None, w):
            raise Unsupported('rolling min_periods')

    def vattr(self, interp, n):
        if n in ('mean', 'sum'):
            return B(lambda: self.s.wrap(rolling(self.s.arr, self.w, n)))
        return NotImplemented


def rolling(arr, w, how):
    """window of w along the first axis"""
    rd = arr.reader()
    c = vc()

    def f(i):
        x = i[0]
        s = c.sums.range_sum(lambda j: toreal(rd((j,) + tuple(i[1:]))), sub(x, sub(w, 1)), add(x, 1))
        v = div(s, w) if how == 'mean' else s
        full = cmp('>=', x, sub(w, 1))
        if full is True or c.entails(full):
            return v
        return withnan(strip(v), core.ornan(nanof(v), z3.simplify(z3.Not(BT(full)))))
    return Arr.new(arr.shape, f, 'f')


class Loc:
    def __init__(self, o):
        self.o = o

    def key(self, interp, k):
        return k

    def vgetitem(self, interp, k):
        o = self.o
        if isinstance(o, DataFrame):
            if isinstance(k, tuple):
                row, col = k
                return Loc(o.col(col)).vgetitem(interp, row) if not (isinstance(row, slice) and row == slice(None)) else o.col(col)
            if isinstance(k, slice):
                lo, hi = o.index.loc_slice(k.start, k.stop)
                return o.rows(interp, lo, hi)
            if isinstance(k, DTIndex):
                ok, i = o.index.pos(k.start)
                vc().safety('labels present', land(ok, o.index.pos(k.at(sub(k.n, 1)))[0]), KeyError)
                if not dim_eq(k.step, o.index.step):
                    raise Unsupported('loc with another frequency')
                return o.rows(interp, i, add(i, k.n))
            if isinstance(k, (Arr, Series)):
                return o.vgetitem(interp, k)
            raise Unsupported('.loc key')
        return o.vgetitem(interp, k)

    def vsetitem(self, interp, k, v):
        o = self.o
        if isinstance(o, DataFrame):
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str):
                if isinstance(k[0], slice) and k[0] == slice(None):
                    return o.vsetitem(interp, k[1], v)
                if k[1] not in o.cols:
                    raise Unsupported('.loc store of new column')
                return o.col(k[1]).vsetitem(interp, k[0], v)
            raise Unsupported('.loc store')
        return o.vsetitem(interp, k, v)


class ILoc:
    def __init__(self, o):
        self.o = o

    def vgetitem(self, interp, k):
        o = self.o
        if isinstance(o, DataFrame):
            if isinstance(k, slice):
                lo, hi = arrays.clip_slice(k.start, k.stop, o.nrows())
                return o.rows(interp, lo, hi)
            raise Unsupported('.iloc')
        if isinstance(k, slice):
            return o.vgetitem(interp, k)
        return o.arr.get(k)

    def vsetitem(self, interp, k, v):
        if isinstance(self.o, Series):
            return self.o.arr.put(k, v)
        raise Unsupported('.iloc store')


class DataFrame:
    def __init__(self, cols, index):
        self.cols = dict(cols)
        self.index = index
        self.depth = vc().loop_depth
        self.version = 0

    def nrows(self):
        return self.index.n

    def vlen(self):
        return self.index.n

    def col(self, k):
        if k not in self.cols:
            raise PyRaise(KeyError, (k,))
        return Series(self.cols[k], self.index, k)

    def rows(self, interp, lo, hi):
        return DataFrame({k: a.slice0(lo, hi).copy() for k, a in self.cols.items()},
                         self.index.vgetitem(interp, slice(lo, hi)))

    def vgetitem(self, interp, k):
        if isinstance(k, str):
            return self.col(k)
        if isinstance(k, (list, tuple)) and all(isinstance(x, str) for x in k):
            for x in k:
                if x not in self.cols:
                    raise PyRaise(KeyError, (x,))
            return DataFrame({x: self.cols[x].copy() for x in k}, self.index)
        if isinstance(k, slice):
            if any(isinstance(x, TS) for x in (k.start, k.stop)):
                lo, hi = self.index.loc_slice(k.start, k.stop)
            else:
                lo, hi = arrays.clip_slice(k.start, k.stop, self.index.n)
            return self.rows(interp, lo, hi)
        if isinstance(k, (int, TS, S)):
            raise PyRaise(KeyError, (k,))
        raise Unsupported('frame key')

    def vsetitem(self, interp, k, v):
        if not isinstance(k, str):
            raise Unsupported('frame store key')
        check_mut(self)
        c = vc()
        if isinstance(v, Series):
            if not same_index(v.index, self.index):
                raise Unsupported('column from a differently indexed series')
            self.cols[k] = v.arr.copy()
            return
        if is_scalar(v):
            v = toreal(v) if is_float(v) else v
            self.cols[k] = arrays.const_arr((self.index.n,), v, dtype_of(v))
            return
        a = to_arr(interp, v)
        if a.ndim == 0:
            x = a.at()
            self.cols[k] = arrays.const_arr((self.index.n,), x, a.dtype)
            return
        if a.ndim == 2 and is_conc(a.shape[1]) and a.shape[1] == 1:
            a = a.pick(1, 0)
        if a.ndim != 1:
            raise PyRaise(ValueError, ('column must be 1-dimensional',))
        if not dim_eq(a.shape[0], self.index.n):
            c.safety('column %s has one value per row' % k, cmp('==', a.shape[0], self.index.n), ValueError)
        b = a.copy()
        b.shape = (self.index.n,)
        b.buf.shape = (self.index.n,)
        self.cols[k] = b

    def vdelitem(self, interp, k):
        if k not in self.cols:
            raise PyRaise(KeyError, (k,))
        del self.cols[k]

    def vcontains(self, interp, k):
        return k in self.cols

    def vkeys(self, interp):
        return list(self.cols)

    def vseq(self, interp):
        return list(self.cols)

    def vsetattr(self, interp, n, v):
        if n == 'index':
            m = v.n if isinstance(v, (DTIndex, RangeIndex)) else None
            if m is None:
                raise Unsupported('index assignment')
            if not dim_eq(m, self.index.n):
                vc().safety('new index has the length of the frame', cmp('==', m, self.index.n), ValueError)
            self.index = v
            return
        raise Unsupported('frame attribute store')

    def vattr(self, interp, n):
        if n == 'index':
            return self.index
        if n == 'columns':
            return VList(self.cols)
        if n == 'head':
            return B(lambda n=5: self.rows(interp, 0, minimum(self.index.n, n) if not vc().entails(cmp('<=', n, self.index.n)) else n))
        if n == 'loc' or n == 'at':
            return Loc(self)
        if n == 'iloc':
            return ILoc(self)
        if n == 'copy':
            return B(lambda deep=True: DataFrame({k: a.copy() for k, a in self.cols.items()}, self.index))
        if n == 'keys':
            return B(lambda: VList(self.cols))
        if n == 'shape':
            return (self.index.n, len(self.cols))
        if n == 'get':
            return B(lambda k, d=None: self.col(k) if k in self.cols else d)
        if n == 'items':
            return B(lambda: VList((k, self.col(k)) for k in self.cols))
        if n in ('fillna', 'ffill', 'bfill'):
            def fill(value=None, method=None, **k):
                out = {}
                how = {'ffill': 'f', 'pad': 'f', 'bfill': 'b', 'backfill': 'b'}.get(method if n == 'fillna' else n)
                for kk, a in self.cols.items():
                    if how:
                        out[kk] = np_fillscan(a, how)
                    else:
                        out[kk] = elementwise(lambda x: ite(core.finite(x), strip(x), value), [a])
                return DataFrame(out, self.index)
            return B(fill)
        if n == 'drop':
            def drop(labels=None, axis=0, columns=None, errors='raise', inplace=False):
                if inplace:
                    raise Unsupported('drop inplace')
                cs = columns if columns is not None else labels
                cs = [cs] if isinstance(cs, str) else list(cs)
                return DataFrame({k: a.copy() for k, a in self.cols.items() if k not in cs}, self.index)
            return B(drop)
        if n == 'assign':
            def assign(**kw):
                d = DataFrame({k: a.copy() for k, a in self.cols.items()}, self.index)
                for k, v in kw.items():
                    d.vsetitem(interp, k, v)
                return d
            return B(assign)
        if n == 'insert':
            return B(lambda loc, k, v: self.vsetitem(interp, k, v))
        if n == 'pop':
            def pop(k):
                s = self.col(k)
                del self.cols[k]
                return s
            return B(pop)
        if n in self.cols:
            return self.col(n)
        return NotImplemented

    def vsetattr_any(self):
        pass


def pandas(interp):
    m = Module('pandas')
    ns = m.ns

    def mkts(x=None, *a, **k):
        if isinstance(x, TS):
            return x
        if isinstance(x, Arr) and x.ndim == 0:
            return x.at()
        if isinstance(x, (str,)):
            return TS(parse_ts(x))
        h = getattr(x, 'vts', None)
        if h:
            return h()
        raise Unsupported('Timestamp')

    def mktd(x=None, unit=None, **k):
        if isinstance(x, TD):
            return x
        if isinstance(x, str):
            return TD(parse_td(x))
        if is_scalar(x) and unit:
            return TD(mul(x, parse_td('1 ' + unit)))
        if x is None and k:
            t = 0
            for kk, v in k.items():
                t = add(t, mul(v, parse_td('1 ' + kk)))
            return TD(t)
        raise Unsupported('Timedelta')
    ns['Timestamp'] = TypeTok('Timestamp', lambda x: isinstance(x, TS), mkts)
    ns['Timedelta'] = TypeTok('Timedelta', lambda x: isinstance(x, TD), mktd)
    ns['to_timedelta'] = B(mktd)
    ns['to_datetime'] = B(lambda x, **k: x if isinstance(x, (TS, DTIndex)) else mkts(x))

    def mkser(data=None, index=None, name=None, dtype=None, **k):
        if isinstance(data, Series):
            if index is None or same_index(index, data.index):
                return Series(data.arr, data.index, name or data.name)
            raise Unsupported('reindexing series')
        if data is None:
            raise Unsupported('empty series')
        if is_scalar(data):
            return Series(arrays.const_arr((index.n,), data, dtype_of(data)), index, name)
        a = to_arr(interp, data)
        idx = index if index is not None else RangeIndex(a.shape[0])
        if not dim_eq(a.shape[0], idx.n):
            vc().safety('series data and index lengths agree', cmp('==', a.shape[0], idx.n), ValueError)
        return Series(a, idx, name)

    def mkdf(data=None, index=None, columns=None, dtype=None, **k):
        d = DataFrame({}, index)
        if data is None:
            if index is None:
                raise Unsupported('empty frame')
            return d
        if isinstance(data, dict):
            if index is None:
                for v in data.values():
                    if isinstance(v, Series):
                        d.index = v.index
                        break
                else:
                    v = next(iter(data.values()))
                    d.index = RangeIndex(to_arr(interp, v).shape[0])
            for kk, v in data.items():
                d.vsetitem(interp, kk, v)
            return d
        raise Unsupported('DataFrame data')
    ns['Series'] = TypeTok('Series', lambda x: isinstance(x, Series), mkser)
    ns['DataFrame'] = TypeTok('DataFrame', lambda x: isinstance(x, DataFrame), mkdf)
    ns['DatetimeIndex'] = TypeTok('DatetimeIndex', lambda x: isinstance(x, DTIndex), lambda x: x)
    ns['Index'] = TypeTok('Index', lambda x: isinstance(x, (DTIndex, RangeIndex)))

    def date_range(start=None, end=None, periods=None, freq=None, tz=None, normalize=False, name=None, inclusive='both', **k):
        if tz is not None or normalize or inclusive != 'both':
            raise Unsupported('date_range option')
        step = parse_td(freq if not isinstance(freq, TD) else '') if isinstance(freq, str) else (freq.m if isinstance(freq, TD) else 1440)
        if start is not None and end is not None and periods is None:
            a, b = mkts(start).m, mkts(end).m
            n = add(core.floordiv(sub(b, a), step), 1)
            if isinstance(n, S):
                from .sums import simp
                n = lift(simp(vc(), n.t))
            if not vc().entails(cmp('>=', n, 0)):
                n = maximum(n, 0)
            return DTIndex(a, step, n)
        if start is not None and periods is not None:
            return DTIndex(mkts(start).m, step, periods)
        if end is not None and periods is not None:
            e = mkts(end).m
            return DTIndex(sub(e, mul(step, sub(periods, 1))), step, periods)
        raise Unsupported('date_range')
    ns['date_range'] = B(date_range)

    def pdconcat(objs, axis=0, **k):
        if k:
            raise Unsupported('concat keywords')
        xs = list(interp.iterate(objs))
        if axis == 1:
            d = DataFrame({}, xs[0].index)
            for x in xs:
                d.vsetitem(interp, x.name, x)
            return d
        raise Unsupported('concat')
    ns['concat'] = B(pdconcat)

    def grouper(freq=None, **k):
        if k:
            raise Unsupported('Grouper')
        return Grouper(to_offset(interp, freq))
    ns['Grouper'] = B(grouper)
    fr = Module('pandas.tseries.frequencies')
    fr.ns['to_offset'] = B(lambda f: to_offset(interp, f))
    ts = Module('pandas.tseries')
    ts.ns['frequencies'] = fr
    ns['tseries'] = ts
    off = Module('pandas.offsets')
    isoff = lambda x: isinstance(x, Offset)
    off.ns['Tick'] = TypeTok('Tick', lambda x: isoff(x) and x.m is not None)
    for q, u in (('Day', 1440), ('Hour', 60), ('Minute', 1)):
        off.ns[q] = TypeTok(q, lambda x, u=u: isoff(x) and x.unit == u, lambda n=1, u=u: Offset('', mul(n, u), u))
    off.ns['DateOffset'] = TypeTok('DateOffset', isoff)
    ns['offsets'] = off
    ns['isnull'] = ns['isna'] = B(lambda x: x is None or (lnot(core.finite(x)) if is_scalar(x) else interp.call(attribute(interp, x, 'isnull'), [], {})))
    return m


def parse_ts(s):
    import datetime
    s = s.strip()
    for f in ('%Y-%m-%d', '%Y/%m/%d', '%Y-%m-%d %H:%M', '%Y-%m-%d %H:%M:%S', '%Y-%m-%d:%H', '%Y-%m'):
        try:
            d = datetime.datetime.strptime(s, f)
            break
        except ValueError:
            continue
    else:
        raise Unsupported('date string %r' % s)
    return int((d - datetime.datetime(1970, 1, 1)).total_seconds() // 60)


# ------------------------------------------------------------------- scipy
def inc_obligation(x, what):
    """knots strictly increasing (adjacent, generic)"""
    c = vc()
    n = x.shape[0]
    i = c.int('kn')
    inr = land(cmp('>=', i, 0), cmp('<', add(i, 1), n))
    a, b = x.at(i), x.at(add(i, 1))
    c.point_hint = i
    g = implies(inr, conj([cmp('<', strip(a), strip(b)), core.finite(a), core.finite(b)]))
    c.obligation('%s: knots finite and strictly increasing (%s)' % (what, c.where), g, 'precondition')
    c.interp_calls = getattr(c, 'interp_calls', [])


class Interp1:
    """piecewise interpolant: assumed contract of scipy.interpolate"""
    def __init__(self, kind, x, y, nan_outside):
        c = vc()
        self.kind, self.x, self.y = kind, x, y
        self.nan_outside = nan_outside
        self.n = x.shape[0]
        nm = c.fresh_name('seg')
        R = z3.RealSort()
        self.SEG = z3.Function(nm, R, z3.IntSort())
        self.VAL = z3.Function(nm + '.val', R, R)
        self.xr, self.yr = x.reader(), y.reader()
        c.on_app[nm] = lambda a: self.seg_fact(S(a[0]))
        if kind == 'pchip':
            c.on_app[nm + '.val'] = lambda a: self.val_fact(S(a[0]))
        if not hasattr(c, 'interps'):
            c.interps = []
        c.interps.append(self)

    def inside(self, t):
        return land(cmp('<=', strip(self.xr((0,))), t), cmp('<=', t, strip(self.xr((sub(self.n, 1),)))))

    def seg_fact(self, t):
        j = S(self.SEG(RT(t)))
        inn = land(self.inside(t), cmp('>=', self.n, 2))
        fs = [implies(inn, conj([cmp('>=', j, 0), cmp('<=', j, sub(self.n, 2)),
                                 cmp('<=', strip(self.xr((j,))), t), cmp('<=', t, strip(self.xr((add(j, 1),))))]))]
        # theorem: with increasing knots the segment of t is the one a known bracket names
        for q in vc().points1 + getattr(vc(), 'segpoints', []):
            inq = land(cmp('>=', q, 0), cmp('<=', q, sub(self.n, 2)))
            br = land(cmp('<', strip(self.xr((q,))), t), cmp('<', t, strip(self.xr((add(q, 1),)))))
            fs.append(implies(conj([inn, inq, br]), cmp('==', j, q)))
        return fs

    def val_fact(self, t):
        j = S(self.SEG(RT(t)))
        v = S(self.VAL(RT(t)))
        a, b = strip(self.yr((j,))), strip(self.yr((add(j, 1),)))
        xa, xb = strip(self.xr((j,))), strip(self.xr((add(j, 1),)))
        inn = land(self.inside(t), cmp('>=', self.n, 2))
        fs = [implies(inn, conj([cmp('<=', minimum(a, b), v), cmp('<=', v, maximum(a, b)),
                                 implies(cmp('==', t, xa), cmp('==', v, a)),
                                 implies(cmp('==', t, xb), cmp('==', v, b))]))]
        for q in vc().points1 + getattr(vc(), 'segpoints', []):
            inq = land(cmp('>=', q, 0), cmp('<', q, self.n))
            fs.append(implies(land(inq, cmp('==', t, strip(self.xr((q,))))), cmp('==', v, strip(self.yr((q,))))))
        return fs

    def value(self, t):
        t = toreal(t)
        tt = S(core.simp_real(RT(t)))
        j = S(self.SEG(tt.t))
        if self.kind == 'pchip':
            return S(self.VAL(tt.t))
        xa, xb = strip(self.xr((j,))), strip(self.xr((add(j, 1),)))
        a, b = self.yr((j,)), self.yr((add(j, 1),))
        na = core.ornan(nanof(a), nanof(b))
        a, b = strip(a), strip(b)
        v = S(RT(a) + (RT(tt) - RT(xa)) * ((RT(b) - RT(a)) / (RT(xb) - RT(xa))))
        out = lnot(self.inside(tt))
        return withnan(v, core.ornan(na, BT(out) if out is not False else None))

    def vcall(self, interp, t, **k):
        if k:
            raise Unsupported('interpolant keywords')
        if is_scalar(t):
            return self.value(t)
        t = to_arr(interp, t)
        rd = t.reader()
        return Arr.new(t.shape, lambda i: self.value(rd(i)), 'f')


def scipy_interpolate(interp):
    m = Module('scipy.interpolate')

    def pchip(x, y, axis=0, extrapolate=None):
        x, y = to_arr(interp, x), to_arr(interp, y)
        c = vc()
        c.safety('pchip: as many values as knots', cmp('==', x.shape[0], y.shape[0]), ValueError)
        c.safety('pchip: at least two knots', cmp('>=', x.shape[0], 2), ValueError)
        inc_obligation(x, 'pchip')
        c.assumed.add('scipy PchipInterpolator: passes through its knots and stays between the values of the two enclosing knots (monotone cubic)')
        return Interp1('pchip', x, y, False)

    def interp1d(x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if kind != 'linear':
            raise Unsupported('interp1d kind')
        if fill_value is not None:
            raise Unsupported('interp1d fill_value')
        x, y = to_arr(interp, x), to_arr(interp, y)
        c = vc()
        c.safety('interp1d: as many values as knots', cmp('==', x.shape[0], y.shape[0]), ValueError)
        if bounds_error is not False:
            raise Unsupported('interp1d that may raise')
        inc_obligation(x, 'interp1d')
        c.assumed.add('scipy interp1d(kind=linear): the chord of the enclosing knots inside the knot range, missing outside')
        return Interp1('linear', x, y, True)
    m.ns['PchipInterpolator'] = m.ns['pchip'] = B(pchip)
    m.ns['interp1d'] = B(interp1d)
    return m


# ------------------------------------------------------------------- others
def math_mod(interp):
    m = Module('math')

    def remainder(x, y):
        """IEEE remainder: x - n*y, n the nearest integer (ties to even)"""
        if not (is_conc(y) and y > 0):
            raise Unsupported('remainder modulus')
        if is_conc(x):
            q = Fraction(x) / y
            n = round(q)
            return Fraction(x) - n * y
        c = vc()
        c.obligation('math.remainder of a finite number', core.finite(x), 'safety') if nanof(x) is not None else None
        t = RT(x)
        q = t / RT(y)
        fl = z3.ToInt(q + z3.RealVal('1/2'))
        tie = z3.ToReal(fl) == q + z3.RealVal('1/2')
        n = z3.If(z3.And(tie, fl % 2 != 0), fl - 1, fl)
        nn = c.int('rem.n')
        c.axiom(nn.t == n)
        r = S(t - z3.ToReal(nn.t) * RT(y))
        c.axiom(z3.And(2 * r.t >= -RT(y), 2 * r.t <= RT(y)))
        return r
    ns = m.ns
    ns['remainder'] = B(remainder)
    for n in ('exp', 'sqrt', 'cos', 'sin', 'log'):
        ns[n] = B((lambda n: lambda x: uf(n, x))(n))
    ns['acos'] = B(lambda x: uf('arccos', x))
    ns['pow'] = B(lambda a, b: toreal(power(a, b)))
    ns['floor'] = B(floor_)
    ns['ceil'] = B(ceil_)
    ns['trunc'] = B(toint)
    ns['fabs'] = B(core.absval)
    ns['isnan'] = B(lambda x: lnot(core.finite(x)))
    m.dynamic = lambda n: core.pi() if n == 'pi' else None
    ns['nan'] = nan_()
    ns['inf'] = nan_()

    def fmod(x, y):
        q = div(x, y)
        return sub(x, mul(toint(q), y))
    ns['fmod'] = B(fmod)
    ns['radians'] = B(lambda x: div(mul(x, core.pi()), 180))
    return m


def library(interp, name):
    if name == 'numpy':
        return numpy(interp)
    if name in ('pandas.tseries.frequencies', 'pandas.tseries.offsets'):
        p = interp.load('pandas').ns
        return p['tseries'].ns['frequencies'] if name.endswith('frequencies') else p['offsets']
    if name == 'pandas':
        return pandas(interp)
    if name == 'math':
        return math_mod(interp)
    if name == 'scipy':
        m = Module('scipy')
        m.ns['interpolate'] = scipy_interpolate(interp)
        return m
    if name == 'scipy.interpolate':
        sp = interp.load('scipy')
        return sp.ns['interpolate']
    if name == 'itertools':
        m = Module('itertools')

        def product(*a, repeat=1):
            qs = [interp.as_seq(x) for x in a] * repeat
            if any(isinstance(q, SymSeq) and not (is_conc(q.n) and q.n <= 4000) for q in qs):
                ns = [q.n if isinstance(q, SymSeq) else len(q) for q in qs]
                at = lambda q, i: interp.getitem(q, i) if not isinstance(q, SymSeq) else q.elem(i)
                tot = 1
                for x in ns:
                    tot = mul(tot, x)

                def elem(k):
                    if not isinstance(k, tuple):
                        ix, rest = [], k
                        for x in reversed(ns[1:]):
                            ix.insert(0, core.mod(rest, x))
                            rest = core.floordiv(rest, x)
                        k = tuple([rest] + ix)
                    return tuple(at(q, i) for q, i in zip(qs, k))
                r = SymSeq(tot, elem)
                r.multi = tuple(ns)
                return r
            return VList(_it.product(*[list(interp.iterate(x)) for x in qs]))
        m.ns['product'] = B(product)
        m.ns['chain'] = B(lambda *a: VList(_it.chain(*[interp.iterate(x) for x in a])))
        m.ns['repeat'] = B(lambda x, n: VList([x] * n))
        return m
    if name == 'numba':
        m = Module('numba')
        m.ns['jit'] = m.ns['njit'] = B(lambda f=None, **k: f)
        return m
    if name == 'typing':
        m = Module('typing')

        class Any_:
            def vgetitem(self, interp, k):
                return self
        for n in ('Tuple', 'List', 'Dict', 'Optional', 'Union', 'Callable', 'Any', 'Sequence', 'Mapping', 'Iterable'):
            m.ns[n] = Any_()
        return m
    if name == 'sys':
        m = Module('sys')
        m.ns['argv'] = VList()
        return m
    if name == 'functools':
        m = Module('functools')
        m.ns['partial'] = B(lambda f, *a, **k: B(lambda *b, **kk: interp.call(f, list(a) + list(b), {**k, **kk})))

        def reduce(f, xs, *init):
            it = list(interp.iterate(xs))
            acc = init[0] if init else it.pop(0)
            for x in it:
                acc = interp.call(f, [acc, x], {})
            return acc
        m.ns['reduce'] = B(reduce)
        return m
    if name == 'collections':
        m = Module('collections')
        od = lambda *a, **k: mkdict(interp, *a, **k)
        m.ns['OrderedDict'] = TypeTok('OrderedDict', lambda x: isinstance(x, dict), od)

        def defaultdict(f=None, *a, **k):
            raise Unsupported('defaultdict')
        m.ns['defaultdict'] = B(defaultdict)
        return m
    if name == 'copy':
        m = Module('copy')

        def cp(x):
            if isinstance(x, dict):
                return VDict(x)
            if isinstance(x, list):
                return VList(x)
            if isinstance(x, Arr):
                return x.copy()
            if isinstance(x, (str, int, Fraction, bool, type(None), tuple, S)):
                return x
            h = getattr(x, 'vattr', None)
            if isinstance(x, (DataFrame, Series)):
                return interp.call(x.vattr(interp, 'copy'), [], {})
            raise Unsupported('copy of %s' % type(x).__name__)

        def deep(x):
            if isinstance(x, dict):
                return VDict((k, deep(v)) for k, v in x.items())
            if isinstance(x, list):
                return VList(deep(v) for v in x)
            if isinstance(x, tuple):
                return tuple(deep(v) for v in x)
            if isinstance(x, Opaque) or isinstance(x, (Func, TypeTok, TS, TD, DTIndex)):
                return x
            return cp(x)
        m.ns['copy'], m.ns['deepcopy'] = B(cp), B(deep)
        return m
    return None


def mkdict(interp, *a, **k):
    d = VDict()
    if a:
        src = a[0]
        if isinstance(src, dict):
            d.update(src)
        elif hasattr(src, 'vkeys'):
            for kk in src.vkeys(interp):
                d[kk] = interp.getitem(src, kk)
        else:
            for p in interp.iterate(src):
                x, y = list(interp.iterate(p))
                d[interp.hashable(x)] = y
    for kk, v in k.items():
        d[kk] = v
    return d


def plen(x):
    if isinstance(x, (str, list, tuple, dict, set)):
        return len(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise PyRaise(TypeError, ('len() of unsized object',))
        return x.shape[0]
    if isinstance(x, SymSeq):
        return x.n
    h = getattr(x, 'vlen', None)
    if h is not None:
        return h()
    if isinstance(x, Range):
        if is_conc(x.a) and is_conc(x.b) and is_conc(x.s):
            return len(range(x.a, x.b, x.s))
        if x.s == 1:
            return maximum(sub(x.b, x.a), 0)
    if x is None or is_scalar(x):
        raise PyRaise(TypeError, ('object has no len()',))
    raise Unsupported('len(%s)' % type(x).__name__)


def builtins(interp):
    ns = {}

    def rng(*a):
        a = [to_int(x) if isinstance(x, Arr) and x.ndim == 0 else x for x in a]
        for x in a:
            if isinstance(x, Fraction) or isinstance(x, S) and not x.is_int:
                raise PyRaise(TypeError, ('float object cannot be interpreted as an integer',))
        if len(a) == 1:
            return Range(0, a[0], 1)
        if len(a) == 2:
            return Range(a[0], a[1], 1)
        return Range(*a)
    ns['range'] = B(rng)

    def seq2(it):
        return interp.as_seq(it)

    def enum(it, start=0):
        s = seq2(it)
        if isinstance(s, SymSeq):
            return SymSeq(s.n, lambda k: (add(k, start), s.elem(k)))
        return [(i + start, x) for i, x in enumerate(s)]
    ns['enumerate'] = B(enum)

    def zip_(*its, strict=False):
        ss = [seq2(i) for i in its]
        if any(isinstance(s, SymSeq) for s in ss):
            n = None
            for s in ss:
                m = s.n if isinstance(s, SymSeq) else len(s)
                n = m if n is None or dim_eq(n, m) else minimum(n, m)
            if is_conc(n) and n <= UNROLL:
                return [tuple(s.elem(i) if isinstance(s, SymSeq) else s[i] for s in ss) for i in range(n)]
            return SymSeq(n, lambda k: tuple(s.elem(k) if isinstance(s, SymSeq) else arrays.select(s, k) for s in ss))
        return [tuple(x) for x in zip(*ss)]
    ns['zip'] = B(zip_)

    def map_(f, *its):
        ss = [seq2(i) for i in its]
        if any(isinstance(s, SymSeq) for s in ss):
            z = zip_(*its)
            if isinstance(z, SymSeq):
                return SymSeq(z.n, lambda k: interp.call(f, list(z.elem(k)), {}))
            return VList(interp.call(f, list(t), {}) for t in z)
        return VList(interp.call(f, list(t), {}) for t in zip(*ss))
    ns['map'] = B(map_)

    def filter_(f, it):
        return VList(x for x in interp.iterate(it) if interp.truth(interp.call(f, [x], {}) if f is not None else x))
    ns['filter'] = B(filter_)
    ns['len'] = B(plen)
    isf = lambda x: isinstance(x, Fraction) or isinstance(x, S) and not x.is_int and not x.is_bool
    ns['int'] = TypeTok('int', lambda x: isinstance(x, (int, bool)) or isint(x), to_int, 'i')
    ns['float'] = TypeTok('float', isf, lambda x=Fraction(0): to_float(x), 'f')

    def tobool(x=False):
        return interp.truth_term(x)
    ns['bool'] = TypeTok('bool', lambda x: isinstance(x, bool) or isinstance(x, S) and x.is_bool, tobool, 'b')

    def tostr(x='', *a, **k):
        return interp.fmt(x)
    ns['str'] = TypeTok('str', lambda x: isinstance(x, str), tostr)
    ns['list'] = TypeTok('list', lambda x: isinstance(x, list), lambda x=(): symlist(interp, x))
    ns['tuple'] = TypeTok('tuple', lambda x: isinstance(x, tuple), lambda x=(): tuple(interp.iterate(x)))
    ns['set'] = TypeTok('set', lambda x: isinstance(x, set), lambda x=(): VSet(interp.iterate(x)))
    ns['frozenset'] = TypeTok('frozenset', lambda x: isinstance(x, frozenset), lambda x=(): frozenset(interp.iterate(x)))
    ns['dict'] = TypeTok('dict', lambda x: isinstance(x, dict), lambda *a, **k: mkdict(interp, *a, **k))
    ns['slice'] = TypeTok('slice', lambda x: isinstance(x, slice), lambda *a: slice(*a))
    ns['object'] = Cls('object', {}, None)
    ns['type'] = B(lambda x: typeof(interp, x))
    ns['callable'] = B(lambda x: isinstance(x, (Func, Builtin, BoundMethod, Cls)))

    def isinst(x, t):
        ts = t if isinstance(t, tuple) else (t,)
        for k in ts:
            if isinstance(k, TypeTok):
                if k.check(x):
                    return True
            elif isinstance(k, Cls):
                if isinstance(x, Inst) and (x.cls is k or k in x.cls.bases):
                    return True
            elif isinstance(k, type):
                if isinstance(x, ExcValue) and issubclass(x.cls, k):
                    return True
            elif isinstance(k, Poison):
                raise Unsupported(k.why)
            else:
                raise Unsupported('isinstance class')
        return False
    ns['isinstance'] = B(isinst)

    def mm(which):
        red = minimum if which == 'min' else maximum

        def f(*a, key=None, default=None):
            if key is not None:
                raise Unsupported('min/max key')
            if len(a) == 1:
                if isinstance(a[0], Arr) and not all(is_conc(s) for s in a[0].shape):
                    return np_extreme(interp, a[0], which)
                a = list(interp.iterate(a[0]))
                if not a:
                    if default is not None:
                        return default
                    raise PyRaise(ValueError, ('empty sequence',))
            if all(is_conc(x) or isinstance(x, str) for x in a):
                return (min if which == 'min' else max)(a)
            if any(isinstance(x, Arr) and x.ndim for x in a):
                raise PyRaise(ValueError, ('ambiguous truth value',))
            if any(isinstance(x, TS) for x in a):
                return TS(red(a[0].m, a[1].m))
            r = a[0]
            for x in a[1:]:
                # keeps the first argument's type on ties, like Python
                if which == 'min':
                    r = ite(cmp('<', strip(x), strip(r)), x, r)
                else:
                    r = ite(cmp('>', strip(x), strip(r)), x, r)
            return r
        return B(f)
    ns['min'], ns['max'] = mm('min'), mm('max')

    def psum(it, start=0):
        s = seq2(it)
        if isinstance(s, SymSeq):
            return add(vc().sums.range_sum(lambda j: toreal(s.elem(j)), 0, s.n), start)
        r = start
        for x in s:
            r = interp.binop('+', r, x)
        return r
    ns['sum'] = B(psum)
    ns['abs'] = B(lambda x: elementwise(core.absval, [x]) if isinstance(x, Arr) else core.absval(x))

    def rnd(x, n=None):
        if is_conc(x):
            r = round(x, n) if n is not None else round(x)
            return r
        raise Unsupported('round')
    ns['round'] = B(rnd)
    ns['pow'] = B(lambda a, b: power(a, b))

    def any_(it):
        r = False
        s = seq2(it)
        if isinstance(s, SymSeq):
            return np_any(interp, to_arr(interp, s))
        for x in s:
            r = lor(r, interp.truth_term(x))
        return r

    def all_(it):
        r = True
        s = seq2(it)
        if isinstance(s, SymSeq):
            return np_any(interp, to_arr(interp, s), neg=True)
        for x in s:
            r = land(r, interp.truth_term(x))
        return r
    ns['any'], ns['all'] = B(any_), B(all_)

    def sorted_(it, key=None, reverse=False):
        xs = list(interp.iterate(it))
        if key is not None:
            ks = [interp.call(key, [x], {}) for x in xs]
        else:
            ks = xs
        if not all(isinstance(k, (str, int, Fraction, tuple)) for k in ks):
            raise Unsupported('sorting symbolic values')
        return VList(x for _, _, x in sorted(zip(ks, range(len(xs)), xs), reverse=reverse))
    ns['sorted'] = B(sorted_)

    def reversed_(it):
        s = seq2(it)
        if isinstance(s, SymSeq):
            return SymSeq(s.n, lambda k: s.elem(sub(sub(s.n, 1), k)))
        return list(reversed(s))
    ns['reversed'] = B(reversed_)
    ns['print'] = B(lambda *a, **k: None)
    ns['iter'] = B(lambda x: VList(interp.iterate(x)))

    def next_(it, *d):
        if isinstance(it, VList):
            if it:
                return it.pop(0)
            if d:
                return d[0]
            raise PyRaise(StopIteration, ())
        raise Unsupported('next')
    ns['next'] = B(next_)

    def hasattr_(o, n):
        try:
            interp.getattr(o, n)
            return True
        except PyRaise as e:
            if e.exc is AttributeError:
                return False
            raise

    def getattr_(o, n, *d):
        try:
            return interp.getattr(o, n)
        except PyRaise as e:
            if e.exc is AttributeError and d:
                return d[0]
            raise
    ns['hasattr'], ns['getattr'] = B(hasattr_), B(getattr_)
    ns['setattr'] = B(lambda o, n, v: interp.setattr(o, n, v))
    ns['id'] = B(lambda x: id(x))
    ns['divmod'] = B(lambda a, b: (core.floordiv(a, b), core.mod(a, b)))
    ns['super'] = B(lambda *a: (_ for _ in ()).throw(Unsupported('super')))
    ns['None'] = None
    ns['__name__'] = 'metsim'
    ns['NotImplemented'] = Opaque('NotImplemented')
    ns['Ellipsis'] = Ellipsis
    import builtins as bi
    for n in dir(bi):
        o = getattr(bi, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            ns[n] = o
    return ns


def typeof(interp, x):
    for n in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set'):
        if interp.builtins[n].check(x):
            return interp.builtins[n]
    if isinstance(x, Inst):
        return x.cls
    raise Unsupported('type()')


def symlist(interp, x):
    s = interp.as_seq(x)
    if isinstance(s, SymSeq):
        if is_conc(s.n):
            return VList(s.elem(i) for i in range(s.n))
        return s
    return VList(s)


# ---------------------------------------------------------------- attributes
def attribute(interp, o, n):
    if isinstance(o, Arr):
        return arr_attr(interp, o, n)
    if isinstance(o, str):
        return str_attr(interp, o, n)
    if isinstance(o, dict):
        return dict_attr(interp, o, n)
    if isinstance(o, list):
        return list_attr(interp, o, n)
    if isinstance(o, tuple):
        if n == 'index':
            return B(lambda x: o.index(x))
        if n == 'count':
            return B(lambda x: o.count(x))
    if isinstance(o, set):
        if n == 'add':
            return B(lambda x: (check_mut(o), o.add(x))[1])
        if n in ('union', 'difference', 'intersection'):
            return B(lambda *a: VSet(getattr(set(o), n)(*[set(interp.iterate(x)) for x in a])))
        if n in ('issubset', 'issuperset'):
            return B(lambda a: getattr(set(o), n)(set(interp.iterate(a))))
        if n == 'update':
            return B(lambda *a: (check_mut(o), o.update(*[interp.iterate(x) for x in a]))[1])
        if n == 'discard':
            return B(lambda x: (check_mut(o), o.discard(x))[1])
    if is_scalar(o):
        if n == 'item':
            return B(lambda: o)
        if n == 'astype':
            return B(lambda d: {'f': toreal, 'i': toint, 'b': interp.truth_term}[as_dtype(d)](o))
        if n in ('values', 'real'):
            return o
        if n in ('sum', 'mean', 'max', 'min', 'copy', 'all', 'any', 'squeeze', 'flatten', 'ravel'):
            if n in ('flatten', 'ravel'):
                return B(lambda: arrays.from_seq([o]))
            return B(lambda *a, **k: o)
        if n == 'is_integer' and isinstance(o, Fraction):
            return B(lambda: o.denominator == 1)
        if n in ('shape', 'ndim', 'dtype'):
            return {'shape': (), 'ndim': 0, 'dtype': 'float64' if is_float(o) else 'int64'}[n]
        raise PyRaise(AttributeError, (n,))
    if o is None:
        raise PyRaise(AttributeError, (n,))
    if isinstance(o, slice):
        if n in ('start', 'stop', 'step'):
            return getattr(o, n)
    if isinstance(o, ExcValue):
        if n == 'args':
            return o.args
    if isinstance(o, type):
        if n == '__name__':
            return o.__name__
    if isinstance(o, Func):
        if n == '__name__':
            return o.name.split('.')[-1]
    if isinstance(o, SymSeq):
        if n == 'append':
            raise Unsupported('append to a symbolic sequence')
    raise Unsupported('attribute %s of %s' % (n, type(o).__name__))


def arr_attr(interp, o, n):
    if n == 'shape':
        return o.shape
    if n == 'ndim':
        return o.ndim
    if n == 'size':
        return o.size
    if n == 'dtype':
        return {'f': 'float64', 'i': 'int64', 'b': 'bool'}[o.dtype]
    if n == 'T':
        rd = o.reader()
        return Arr.new(tuple(reversed(o.shape)), lambda i: rd(tuple(reversed(i))), o.dtype)
    if n == 'values':
        return o
    if n == 'copy':
        return B(lambda *a, **k: o.copy())
    if n == 'flatten':
        return B(lambda *a, **k: ravel(o, copy=True))
    if n == 'ravel':
        return B(lambda *a, **k: ravel(o))
    if n == 'reshape':
        return B(lambda *a, **k: reshape(interp, o, *a))
    if n == 'squeeze':
        return B(lambda *a, **k: squeeze(o))
    if n == 'sum':
        return B(lambda axis=None, **k: np_sum(interp, o, axis))
    if n == 'mean':
        return B(lambda axis=None, **k: np_mean(interp, o, axis))
    if n in ('max', 'min'):
        return B(lambda axis=None, **k: np_extreme(interp, o, n, axis))
    if n == 'any':
        return B(lambda **k: np_any(interp, o))
    if n == 'all':
        return B(lambda **k: np_any(interp, o, neg=True))
    if n == 'astype':
        def astype(d, **k):
            dt = as_dtype(d)
            if dt != o.dtype:
                return cast(o, dt)
            return o.copy()
        return B(astype)
    if n == 'item':
        return B(lambda *a: o.at(*([0] * o.ndim)) if not a else o.get(a))
    if n == 'fill':
        return B(lambda v: o.store(v))
    if n == 'repeat':
        return B(lambda m, axis=None: np_repeat(interp, o, m, axis))
    if n == 'cumsum':
        return B(lambda axis=None: np_cumsum(interp, o, axis))
    if n == 'nonzero':
        return B(lambda: arrays.nonzero(o))
    if n == 'clip':
        return B(lambda lo=None, hi=None, **k: interp.call(interp.load('numpy').ns['clip'], [o, k.get('min', lo), k.get('max', hi)], {}))
    if n == 'tolist':
        return B(lambda: symlist(interp, o))
    if n in ('get_values', 'to_numpy'):
        return B(lambda: o)
    raise PyRaise(AttributeError, (n,))


def str_attr(interp, o, n):
    if n == 'format':
        def fmt(*a, **k):
            a = [FmtArg(interp, x) for x in a]
            k = {kk: FmtArg(interp, v) for kk, v in k.items()}
            return o.format(*a, **k)
        return B(fmt)
    if n == 'join':
        def join(xs):
            xs = list(interp.iterate(xs))
            if not all(isinstance(x, str) for x in xs):
                raise PyRaise(TypeError, ('sequence item: expected str',))
            return o.join(xs)
        return B(join)
    if n in ('split', 'rsplit', 'splitlines'):
        return B(lambda *a, **k: VList(getattr(o, n)(*a, **k)))
    if n in ('partition',):
        return B(lambda *a: getattr(o, n)(*a))
    if hasattr(o, n):
        def call(*a, **k):
            for x in a:
                if not isinstance(x, (str, int, tuple, type(None))):
                    raise Unsupported('str.%s argument' % n)
            try:
                return getattr(o, n)(*a, **k)
            except (ValueError, TypeError) as e:
                raise PyRaise(type(e), e.args)
        return B(call)
    raise PyRaise(AttributeError, (n,))


class FmtArg:
    def __init__(self, interp, x):
        self.interp, self.x = interp, x

    def __format__(self, spec):
        if isinstance(self.x, Fraction):
            return format(float(self.x), spec)
        return self.interp.fmt(self.x, spec)

    def __str__(self):
        return self.interp.fmt(self.x)

    def __getattr__(self, n):
        return FmtArg(self.interp, self.interp.getattr(self.x, n))

    def __getitem__(self, k):
        return FmtArg(self.interp, self.interp.getitem(self.x, k))


def dict_attr(interp, o, n):
    if n == 'keys':
        return B(lambda: KeysView(o.keys()))
    if n == 'values':
        return B(lambda: VList(o.values()))
    if n == 'items':
        return B(lambda: VList(o.items()))
    if n == 'get':
        def get(k, d=None):
            v = o.get(k, d)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        return B(get)
    if n == 'copy':
        return B(lambda: VDict(o))
    if n == 'update':
        def upd(*a, **k):
            check_mut(o)
            o.update(mkdict(interp, *a, **k))
        return B(upd)
    if n == 'pop':
        def pop(k, *d):
            check_mut(o)
            if k in o:
                return o.pop(k)
            if d:
                return d[0]
            raise PyRaise(KeyError, (k,))
        return B(pop)
    if n == 'setdefault':
        def sd(k, d=None):
            check_mut(o)
            return o.setdefault(k, d)
        return B(sd)
    if n == 'clear':
        return B(lambda: (check_mut(o), o.clear())[1])
    raise PyRaise(AttributeError, (n,))


class KeysView(VList):
    pass


def list_attr(interp, o, n):
    def mut(f):
        def g(*a, **k):
            check_mut(o)
            return f(*a, **k)
        return B(g)
    if n == 'append':
        return mut(lambda x: list.append(o, x))
    if n == 'extend':
        return mut(lambda xs: list.extend(o, interp.iterate(xs)))
    if n == 'insert':
        return mut(lambda i, x: list.insert(o, i, x))
    if n == 'pop':
        def pop(*a):
            if not o:
                raise PyRaise(IndexError, ('pop from empty list',))
            return list.pop(o, *a)
        return mut(pop)
    if n == 'remove':
        def rem(x):
            if x not in o:
                raise PyRaise(ValueError, ('list.remove',))
            list.remove(o, x)
        return mut(rem)
    if n == 'index':
        def index(x):
            if x not in o:
                raise PyRaise(ValueError, ('not in list',))
            return list.index(o, x)
        return B(index)
    if n == 'copy':
        return B(lambda: VList(o))
    if n == 'count':
        return B(lambda x: list.count(o, x))
    if n == 'reverse':
        return mut(lambda: list.reverse(o))
    if n == 'sort':
        def srt(key=None, reverse=False):
            r = interp.builtins['sorted'].fn(o, key=key, reverse=reverse)
            o[:] = r
        return mut(srt)
    if n == 'clear':
        return mut(lambda: list.clear(o))
    raise PyRaise(AttributeError, (n,))
