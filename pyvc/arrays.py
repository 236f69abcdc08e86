"""Symbolic numpy arrays: a shape (concrete or symbolic) and an element function.

An `Arr` is a view onto a `Buf`; writes go through to the buffer.  Element
functions are total; bounds are checked where Python would check them.
"""
from fractions import Fraction
import copy
import z3
from . import core
from .core import (S, T, RT, BT, Unsupported, PyRaise, LoopCarried, add, sub, mul, div,
                   floordiv, mod, cmp, land, lor, lnot, ite, conj, is_conc, is_num, vc, isint,
                   implies, strip, withnan, nanof, lift)


def ikey(i):
    if isinstance(i, S):
        return ('t', i.t.get_id())
    return i


class Buf:
    def __init__(self, shape, fn, dtype='f', name=None):
        self.shape, self.dtype, self.name = tuple(shape), dtype, name
        self.fn = fn
        self.cache = {}
        self.depth = vc().loop_depth
        self.serial = vc().next_serial()

    def read(self, idx):
        k = tuple(ikey(i) for i in idx)
        c = self.cache.get(k)
        if c is not None:
            return c[0]
        v = self.fn(idx)
        self.cache[k] = (v, idx)
        return v

    def snapshot(self):
        f, cache = self.fn, self.cache

        def rd(idx):
            k = tuple(ikey(i) for i in idx)
            c = cache.get(k)
            if c is not None:
                return c[0]
            v = f(idx)
            cache[k] = (v, idx)
            return v
        return rd

    def write(self, condval):
        c = vc()
        for L in c.loops:
            if self.depth < L.depth:
                L.note_write(self, condval)
        old = self.snapshot()

        def fn(idx):
            cd, val = condval(idx)
            if cd is False:
                return old(idx)
            v = val() if callable(val) else val
            if cd is True:
                return v
            return ite(cd, v, old(idx))
        self.fn = fn
        self.cache = {}


def whole(idx):
    return True, idx


class Arr:
    """view: `imap` maps own index to the buffer's, `inv` back with a membership condition"""
    def __init__(self, shape, buf, imap=None, inv=None, dtype=None, frozen=None):
        self.shape, self.buf = tuple(shape), buf
        self.imap = imap or (lambda i: i)
        self.inv = inv or whole
        self.dtype = dtype or buf.dtype
        self.frozen = frozen          # reason why writing is not supported
        self.contig = imap is None
        self.ident = imap is None

    # -- construction
    @staticmethod
    def new(shape, fn, dtype='f', name=None):
        return Arr(shape, Buf(shape, fn, dtype, name))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = mul(r, s)
        return r

    def reader(self):
        for L in vc().loops:
            if self.buf.depth < L.depth:
                L.note_read(self)
        rd, im = self.buf.snapshot(), self.imap
        return lambda idx: rd(im(tuple(idx)))

    def at(self, *idx):
        """element value without bounds check (specification use)"""
        return self.buf.read(self.imap(tuple(idx)))

    def copy(self):
        return Arr.new(self.shape, self.reader(), self.dtype)

    def astype_real(self):
        return self

    # -- views
    def slice0(self, lo, hi, step=1):
        if step == -1 and lo is None and hi is None:
            n = self.shape[0]
            im, inv = self.imap, self.inv
            fl = lambda i: (sub(sub(n, 1), i[0]),) + tuple(i[1:])
            return Arr(self.shape, self.buf, lambda i: im(fl(i)),
                       lambda b: (lambda r: (r[0], fl(r[1])))(inv(b)), self.dtype, self.frozen)
        if step not in (1, None):
            n = self.shape[0]
            if not (isinstance(step, int) and step > 0):
                raise Unsupported('slice step')
            lo2, hi2 = clip_slice(lo, hi, n)
            ln = floordiv(add(sub(hi2, lo2), step - 1), step)
            rd = self.reader()
            return Arr((ln,) + self.shape[1:], Buf((ln,) + self.shape[1:], lambda i: rd((add(lo2, mul(step, i[0])),) + tuple(i[1:])), self.dtype), frozen='strided slice')
        n = self.shape[0]
        lo, hi = clip_slice(lo, hi, n)
        ln = sub(hi, lo)
        im, inv = self.imap, self.inv

        def inv2(b):
            c, i = inv(b)
            return conj([c, cmp('<=', lo, i[0]), cmp('<', i[0], hi)]), (sub(i[0], lo),) + tuple(i[1:])
        return Arr((ln,) + self.shape[1:], self.buf, lambda i: im((add(i[0], lo),) + tuple(i[1:])), inv2, self.dtype, self.frozen)

    def pick(self, axis, i):
        im, inv = self.imap, self.inv

        def inv2(b):
            c, x = inv(b)
            return land(c, cmp('==', x[axis], i)), tuple(x[:axis]) + tuple(x[axis + 1:])
        return Arr(self.shape[:axis] + self.shape[axis + 1:], self.buf,
                   lambda x: im(tuple(x[:axis]) + (i,) + tuple(x[axis:])), inv2, self.dtype, self.frozen)

    def slice_axis(self, axis, lo, hi):
        if axis == 0:
            return self.slice0(lo, hi)
        n = self.shape[axis]
        lo, hi = clip_slice(lo, hi, n)
        im, inv = self.imap, self.inv

        def mv(x, f):
            return tuple(x[:axis]) + (f(x[axis]),) + tuple(x[axis + 1:])

        def inv2(b):
            c, x = inv(b)
            return conj([c, cmp('<=', lo, x[axis]), cmp('<', x[axis], hi)]), mv(x, lambda v: sub(v, lo))
        sh = self.shape[:axis] + (sub(hi, lo),) + self.shape[axis + 1:]
        return Arr(sh, self.buf, lambda x: im(mv(x, lambda v: add(v, lo))), inv2, self.dtype, self.frozen)

    def norm_index(self, i, axis=0):
        """scalar index: bounds obligation, negatives resolved"""
        n = self.shape[axis]
        if isinstance(i, bool) or not (isinstance(i, int) or isinstance(i, S) and i.is_int):
            if isinstance(i, Fraction) or isinstance(i, S) and not i.is_bool:
                raise PyRaise(IndexError, ('float index',))
            raise Unsupported('index type')
        if is_conc(i) and i < 0:
            i2 = add(n, i)
            c = cmp('>=', i2, 0)
            if c is False or (c is not True and not vc().entails(c)):
                vc().safety('index within bounds', c, IndexError)
            return i2
        c = land(cmp('>=', i, 0), cmp('<', i, n))
        if c is True or vc().entails(c):
            return i
        if not is_conc(i) and not vc().entails(cmp('>=', i, 0)):
            # may be negative: wraps
            ok = land(cmp('>=', i, mul(-1, n)), cmp('<', i, n))
            vc().safety('index within bounds', ok, IndexError)
            return ite(cmp('<', i, 0), add(i, n), i)
        vc().safety('index within bounds', c, IndexError)
        return i

    def get(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            fill = self.ndim - (len(key) - 1)
            key = key[:p] + (slice(None),) * fill + key[p + 1:]
        if len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype == 'b':
            return compress(self, key[0])
        if any(isinstance(k, Arr) for k in key):
            return self.fancy(key)
        v, ax = self, 0
        for k in key:
            if isinstance(k, slice):
                if not (k.start is None and k.stop is None and k.step in (None, 1)):
                    if k.step in (None, 1):
                        v = v.slice_axis(ax, k.start, k.stop)
                    elif ax == 0:
                        v = v.slice0(k.start, k.stop, k.step)
                    else:
                        raise Unsupported('strided slice on later axis')
                ax += 1
            elif k is None:
                base = v
                sh = base.shape[:ax] + (1,) + base.shape[ax:]
                rd = base.reader()
                a0 = ax
                v = Arr(sh, Buf(sh, lambda x: rd(tuple(x[:a0]) + tuple(x[a0 + 1:])), base.dtype), frozen='newaxis view')
                ax += 1
            else:
                v = v.pick(ax, v.norm_index(k, ax))
        if v.ndim == 0:
            for L in vc().loops:
                if v.buf.depth < L.depth:
                    L.note_read(v)
            return v.at()
        return v

    def fancy(self, key):
        arrs = [k for k in key if isinstance(k, Arr)]
        if len(key) == 1:
            ix = key[0]
            ird, rd = ix.reader(), self.reader()
            self.check_fancy(ix, 0)
            nd = ix.ndim
            n = self.shape[0]
            g = wrap_neg(ird, n)
            return Arr.new(ix.shape + self.shape[1:], lambda x: rd((g(tuple(x[:nd])),) + tuple(x[nd:])), self.dtype)
        if len(key) == 2 and isinstance(key[1], Arr) and isinstance(key[0], slice) and key[0] == slice(None):
            ix = key[1]
            ird, rd = ix.reader(), self.reader()
            self.check_fancy(ix, 1)
            g = wrap_neg(ird, self.shape[1])
            return Arr.new((self.shape[0],) + ix.shape, lambda x: rd((x[0], g((x[1],)))), self.dtype)
        if all(isinstance(k, Arr) for k in key) and len(key) == self.ndim and len({id(a) for a in arrs}) >= 1:
            sh = key[0].shape
            rds = [wrap_neg(k.reader(), self.shape[a]) for a, k in enumerate(key)]
            for a, k in enumerate(key):
                self.check_fancy(k, a)
            rd = self.reader()
            return Arr.new(sh, lambda x: rd(tuple(r(x) for r in rds)), self.dtype)
        raise Unsupported('mixed fancy index')

    def check_fancy(self, ix, axis):
        if ix.dtype != 'i':
            if ix.dtype == 'b':
                raise Unsupported('boolean index on later axis')
            raise PyRaise(IndexError, ('arrays used as indices must be of integer type',))
        n = self.shape[axis]
        pt = ix.fresh_point('ix')
        v = ix.at(*pt)
        ok = land(cmp('>=', v, mul(-1, n)), cmp('<', v, n))
        g = implies(ix.inb(pt), ok)
        if g is True:
            return
        vc().safety('fancy index within bounds', g, IndexError)

    def fresh_point(self, nm='q'):
        return tuple(vc().int(nm) for _ in self.shape)

    def inb(self, idx):
        return conj([land(cmp('>=', i, 0), cmp('<', i, n)) for i, n in zip(idx, self.shape)])

    # -- writes
    def store(self, value, sel=None):
        """assign through this view; sel: own-index condition (mask)"""
        if self.frozen:
            raise Unsupported('write through ' + self.frozen)
        inv = self.inv
        if isinstance(value, Arr):
            vr = broadcast_reader(value, self.shape)
        else:
            if isinstance(value, (list, tuple)):
                va = from_seq(value)
                vr = broadcast_reader(va, self.shape)
            else:
                chk_scalar(value)
                vr = lambda i: value
        if self.dtype == 'i':
            vr0 = vr
            vr = lambda i: core.toint(vr0(i))
        elif self.dtype == 'f':
            vr1 = vr
            vr = lambda i: core.toreal(vr1(i))

        def condval(b):
            c, i = inv(b)
            if sel is not None and c is not False:
                c = land(c, sel(i))
            return c, (lambda: vr(i))
        self.buf.write(condval)

    def put(self, key, value):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and isinstance(key[0], Arr):
            k = key[0]
            if k.dtype == 'b':
                same_shape(k, self)
                mrd = k.reader()
                if isinstance(value, Arr):
                    # packed values: by rank
                    cp = compress_info(k)
                    vrd = value.reader()
                    vc().safety('boolean assignment length', cmp('==', value.shape[0], cp.cnt), ValueError)
                    vv = Arr.new(self.shape, lambda i: vrd((cp.rank(i),)), value.dtype)
                    self.store(vv, sel=lambda i: mrd(i))
                else:
                    self.store(value, sel=lambda i: mrd(i))
                return
            return self.put_fancy(k, value)
        if any(isinstance(k, Arr) for k in key):
            raise Unsupported('fancy store')
        v = self.view_for_store(key)
        v.store(value)

    def view_for_store(self, key):
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            fill = self.ndim - (len(key) - 1)
            key = key[:p] + (slice(None),) * fill + key[p + 1:]
        v, ax = self, 0
        for k in key:
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported('strided store')
                v = v.slice_axis(ax, k.start, k.stop) if not (k.start is None and k.stop is None) else v
                ax += 1
            else:
                v = v.pick(ax, v.norm_index(k, ax))
        return v

    def put_fancy(self, ix, value):
        """self[ix] = value for an index array that came from a selection (injective), else last writer"""
        self.check_fancy(ix, 0)
        if ix.ndim != 1:
            raise Unsupported('nd fancy store')
        inj = getattr(ix, 'selection', None)
        if isinstance(value, Arr):
            vr = broadcast_reader(value, ix.shape + self.shape[1:])
        else:
            chk_scalar(value)
            vr = lambda i: value
        if inj is not None:
            member, rank = inj

            def condval(b):
                c, i = self.inv(b)
                r = (i[0],)
                c = land(c, member(r))
                return c, (lambda: core.toreal(vr((rank(r),) + tuple(i[1:]))) if self.dtype == 'f' else vr((rank(r),) + tuple(i[1:])))
            self.buf.write(condval)
            return
        n = ix.shape[0]
        ird = ix.reader()
        g = wrap_neg(ird, self.shape[0])
        lw = last_writer(n, lambda k, x: cmp('==', g((k,)), x), 1)

        def condval(b):
            c, i = self.inv(b)
            w, k = lw((i[0],))
            return land(c, w), (lambda: core.toreal(vr((k,) + tuple(i[1:]))) if self.dtype == 'f' else vr((k,) + tuple(i[1:])))
        self.buf.write(condval)

    def __repr__(self):
        return 'Arr%s%s' % (self.dtype, tuple(str(s) for s in self.shape))


def chk_scalar(v):
    if not (isinstance(v, S) or is_conc(v)):
        raise Unsupported('array element of type %s' % type(v).__name__)


def wrap_neg(rd, n):
    def g(i):
        v = rd(i)
        if is_conc(v):
            return v if v >= 0 else add(v, n)
        if vc().entails_q(cmp('>=', v, 0)):
            return v
        return ite(cmp('<', v, 0), add(v, n), v)
    return g


def clip_slice(lo, hi, n):
    def fix(v, dflt):
        if v is None:
            return dflt
        if isinstance(v, Fraction) or isinstance(v, S) and not v.is_int:
            raise PyRaise(TypeError, ('slice indices must be integers',))
        if is_conc(v) and is_conc(n):
            if v < 0:
                v = max(v + n, 0)
            return min(v, n)
        e = vc().entails
        if is_conc(v):
            if v >= 0:
                return v if e(cmp('<=', v, n)) else core.minimum(v, n)
            w = add(n, v)
            return w if e(cmp('>=', w, 0)) else core.maximum(w, 0)
        if e(cmp('>=', v, 0)):
            return v if e(cmp('<=', v, n)) else core.minimum(v, n)
        w = ite(cmp('<', v, 0), core.maximum(add(v, n), 0), core.minimum(v, n))
        return w
    lo, hi = fix(lo, 0), fix(hi, n)
    c = cmp('<=', lo, hi)
    if c is True or vc().entails(c):
        return lo, hi
    return lo, core.maximum(lo, hi)


def const_arr(shape, v, dtype='f'):
    return Arr.new(shape, lambda i: v, dtype)


def from_seq(xs):
    xs = list(xs)
    if any(isinstance(x, Arr) for x in xs):
        rs = [x.reader() for x in xs]
        sh = xs[0].shape
        for x in xs[1:]:
            for p, q in zip(x.shape, sh):
                vc().safety('stacked shapes agree', cmp('==', p, q), ValueError)
        return Arr.new((len(xs),) + sh, lambda i: select([r(tuple(i[1:])) for r in rs], i[0]), xs[0].dtype)
    xs = [x.at() if isinstance(x, Arr) and x.ndim == 0 else x for x in xs]
    if any(isinstance(x, (list, tuple)) for x in xs):
        return from_seq([from_seq(x) for x in xs])
    for x in xs:
        chk_scalar(x)
    dt = 'b' if xs and all(isinstance(x, bool) or isinstance(x, S) and x.is_bool for x in xs) else \
        'i' if xs and all(isint(x) or isinstance(x, bool) for x in xs) else 'f'
    if dt == 'f':
        xs = [core.toreal(x) for x in xs]
    return Arr.new((len(xs),), lambda i: select(xs, i[0]), dt)


def select(xs, i):
    if is_conc(i):
        if 0 <= i < len(xs):
            return xs[i]
        return xs[-1] if xs else Fraction(0)
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = ite(cmp('==', i, j), xs[j], r)
    return r


def dim_eq(a, b):
    c = cmp('==', a, b)
    if c is True:
        return True
    if c is False:
        return False
    return vc().entails(c)


def same_shape(a, b):
    if len(a.shape) != len(b.shape):
        raise Unsupported('rank mismatch')
    for p, q in zip(a.shape, b.shape):
        if not dim_eq(p, q):
            vc().safety('shapes agree', cmp('==', p, q), ValueError)


def bshape(s1, s2):
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if is_conc(x) and x == 1:
            out.append(y)
        elif is_conc(y) and y == 1:
            out.append(x)
        elif dim_eq(x, y):
            out.append(x if is_conc(x) else y)
        else:
            vc().safety('operands could be broadcast together', cmp('==', x, y), ValueError)
            out.append(x if is_conc(x) else y)
    return tuple(out)


def broadcast_reader(a, shape):
    if isinstance(a, Arr):
        rd = a.reader()
        off = len(shape) - a.ndim
        if off < 0:
            raise Unsupported('broadcast to lower rank')
        mp = []
        for p, q in zip(a.shape, shape[off:]):
            if is_conc(p) and p == 1 and not (is_conc(q) and q == 1):
                mp.append(False)
            else:
                if not dim_eq(p, q):
                    vc().safety('operands could be broadcast together', cmp('==', p, q), ValueError)
                mp.append(True)
        return lambda i: rd(tuple(x if m else 0 for x, m in zip(tuple(i)[off:], mp)))
    return lambda i: a


def result_dtype(op, ds):
    if op in ('cmp', 'logic'):
        return 'b'
    if op == 'div':
        return 'f'
    if 'f' in ds:
        return 'f'
    return 'i'


def dtype_of(x):
    if isinstance(x, Arr):
        return x.dtype
    if isinstance(x, bool) or isinstance(x, S) and x.is_bool:
        return 'b'
    if isint(x):
        return 'i'
    return 'f'


def elementwise(fn, args, kind='num', dtype=None):
    """numpy ufunc on arrays/scalars"""
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return fn(*args)
    sh = arrs[0].shape
    for a in arrs[1:]:
        sh = bshape(sh, a.shape)
    rs = [broadcast_reader(a, sh) for a in args]
    dt = dtype or result_dtype(kind, [dtype_of(a) for a in args])
    if dt == 'f':
        f = lambda i: core.toreal(fn(*[r(i) for r in rs]))
    else:
        f = lambda i: fn(*[r(i) for r in rs])
    return Arr.new(sh, f, dt)


# ------------------------------------------------------- selections (nonzero)
class Selection:
    """positions where a mask holds, in order: cnt of them, sel: rank -> position
    (a tuple), rank: position -> rank.  Characterised by facts instantiated at
    every index it is asked about and at the context's ghost points.  Inside a
    summarised loop the functions take the iteration counters as arguments."""
    def __init__(self, mask, gen_term):
        c = vc()
        self.mask = mask
        self.mrd = mask.reader()
        nd = mask.ndim
        nm = c.fresh_name('sel')
        self.nm = nm
        self.ks = c.loop_params([T(gen_term)] + [T(x) for x in mask.shape])
        I = z3.IntSort()
        pre = [I] * len(self.ks)
        self.nk = len(pre)
        self.SEL = [z3.Function('%s.%d' % (nm, a), *(pre + [I, I])) for a in range(nd)]
        self.RANK = z3.Function(nm + '.rank', *(pre + [I] * nd + [I]))
        total = mask.size
        if pre:
            self.CNT = z3.Function(nm + '.cnt', *(pre + [I]))
            self.cnt = S(self.CNT(*self.ks))
            c.on_app[self.CNT.name()] = lambda args: self.at_k(args, lambda: [land(cmp('>=', self.cnt, 0), cmp('<=', self.cnt, total))])
        else:
            self.cnt = S(z3.Int(nm + '.cnt'))
        c.axiom(land(cmp('>=', self.cnt, 0), cmp('<=', self.cnt, total)))
        c.selections.append(self)
        self.nd = nd
        for f in self.SEL:
            c.on_app[f.name()] = lambda args: self.at_k(args, lambda r: self.sel_fact(r))
        c.on_app[self.RANK.name()] = lambda args: self.at_k(args, lambda *p: self.rank_fact(p))

    def at_k(self, args, gen):
        """facts for other values of the iteration counters"""
        kk, rest = args[:self.nk], args[self.nk:]
        fs = gen(*rest)
        subs = [(a, b) for a, b in zip(self.ks, kk) if not a.eq(b)]
        if not subs:
            return fs
        return [S(z3.substitute(BT(f), *subs)) for f in fs]

    def lexlt(self, a, b):
        r = False
        for x, y in reversed(list(zip(a, b))):
            r = lor(cmp('<', x, y), land(cmp('==', x, y), r))
        return r

    def sel(self, r):
        return tuple(S(f(*(self.ks + [T(r)]))) for f in self.SEL)

    def rank(self, idx):
        return S(self.RANK(*(self.ks + [T(i) for i in idx])))

    def member(self, p):
        return land(self.mask_inb(p), self.mrd(tuple(p)))

    def sel_fact(self, rt):
        r = S(rt)
        p = self.sel(r)
        inr = land(cmp('>=', r, 0), cmp('<', r, self.cnt))
        return [implies(inr, conj([self.member(p), cmp('==', self.rank(p), r)]))]

    def mask_inb(self, p):
        return conj([land(cmp('>=', i, 0), cmp('<', i, n)) for i, n in zip(p, self.mask.shape)])

    def rank_fact(self, args):
        p = tuple(S(a) for a in args)
        r = self.rank(p)
        s = self.sel(r)
        out = [implies(self.member(p), conj([cmp('>=', r, 0), cmp('<', r, self.cnt)] +
                                            [cmp('==', x, y) for x, y in zip(s, p)]))]
        if self.nd == 1:
            # first and last selected position
            lo, hi = self.sel(0)[0], self.sel(sub(self.cnt, 1))[0]
            x = p[0]
            out.append(implies(self.member(p), conj([
                cmp('<=', lo, x), cmp('>=', hi, x),
                lor(cmp('==', r, 0), cmp('<', lo, x)),
                lor(cmp('==', r, sub(self.cnt, 1)), cmp('>', hi, x))])))
        return out

    def interval(self, cand, guard=True):
        """lemma `sel-interval`: a mask that holds exactly on A..B selects B-A+1
        positions and the rank of x is x-A.  `cand(*counters)` proposes (A, B);
        used only when the mask is proved to be that interval."""
        if self.nd != 1:
            return False
        c = vc()
        x = c.int('x')
        ks = [S(k) for k in self.ks]
        A, B = cand(*ks)
        g = guard(*ks) if callable(guard) else guard
        with c.assuming([g, cmp('>=', x, 0), cmp('<', x, self.mask.shape[0])]):
            m = self.mrd((x,))
            iv = land(cmp('<=', A, x), cmp('<=', x, B))
            if not (c.entails(implies(m, iv)) and c.entails(implies(iv, m))):
                return False
        with c.assuming([g]):
            if not c.entails(land(cmp('>=', A, 0), cmp('<', B, self.mask.shape[0]))):
                return False
        n = add(sub(B, A), 1)
        cf = implies(g, cmp('==', self.cnt, ite(cmp('>', n, 0), n, 0)))
        if self.nk:
            o1 = c.on_app[self.CNT.name()]
            c.on_app[self.CNT.name()] = lambda args: o1(args) + self.at_k(args, lambda: [cf])
        else:
            c.axiom(cf)
        o2 = c.on_app[self.RANK.name()]
        c.on_app[self.RANK.name()] = lambda args: o2(args) + self.at_k(
            args, lambda p: [implies(land(g, self.member((S(p),))), cmp('==', self.rank((S(p),)), sub(S(p), A)))])
        o3 = c.on_app[self.SEL[0].name()]
        c.on_app[self.SEL[0].name()] = lambda args: o3(args) + self.at_k(
            args, lambda r: [implies(conj([g, cmp('>=', S(r), 0), cmp('<', S(r), self.cnt)]),
                                     cmp('==', self.sel(S(r))[0], add(S(r), A)))])
        c._scan_seen = {}
        return True

    # theorems about selections, for use in contracts
    def order_fact(self, r1, r2):
        a, b = self.sel(r1), self.sel(r2)
        ok = conj([cmp('>=', r1, 0), cmp('<', r1, r2), cmp('<', r2, self.cnt)])
        return implies(ok, self.lexlt(a, b))

    def step_fact(self, x):
        """1-d: adjacent members have adjacent ranks"""
        nx = add(x, 1)
        return implies(land(self.member((x,)), self.member((nx,))),
                       cmp('==', self.rank((nx,)), add(self.rank((x,)), 1)))

    def first_fact(self, x):
        """a member that is not the first has an earlier one"""
        r = self.rank((x,))
        e = self.sel(sub(r, 1))[0]
        return implies(land(self.member((x,)), cmp('>', r, 0)), land(cmp('<', e, x), self.member((e,))))

    def last_fact(self, x):
        r = self.rank((x,))
        e = self.sel(add(r, 1))[0]
        return implies(land(self.member((x,)), cmp('<', r, sub(self.cnt, 1))), land(cmp('>', e, x), self.member((e,))))


def compress_info(mask):
    c = vc()
    # share between equal masks: compare element terms at a generic point
    pt = c.generic_point(mask.ndim)
    mt = mask.reader()(pt)
    # the counters of enclosing summarised loops are parameters of a selection:
    # equal masks under other counter names share its functions
    ks = c.loop_params([T(mt)] + [T(x) for x in mask.shape])
    subs = [(k, z3.Int('LOOP%d' % i)) for i, k in enumerate(ks)]
    canon = z3.substitute(T(mt), *subs) if subs else T(mt)
    key = (mask.ndim, len(ks), canon.get_id(), tuple(ikey(s) for s in mask.shape))
    for k, info, keep in c.sel_cache:
        if k == key:
            if all(a.eq(b) for a, b in zip(ks, info.ks)):
                return info
            view = copy.copy(info)
            view.ks, view.mask, view.mrd = ks, mask, mask.reader()
            view.cnt = S(view.CNT(*ks)) if ks else info.cnt
            return view
    info = Selection(mask, mt)
    c.sel_cache.append((key, info, (mt, canon)))
    return info


def compress(a, mask):
    """a[mask]"""
    if mask.ndim != 1 or a.ndim != 1:
        if mask.ndim == a.ndim:
            s = compress_info(mask)
            rd = a.reader()
            return Arr.new((s.cnt,), lambda i: rd(s.sel(i[0])), a.dtype)
        if mask.ndim == 1:
            s = compress_info(mask)
            rd = a.reader()
            return Arr.new((s.cnt,) + a.shape[1:], lambda i: rd(s.sel(i[0]) + tuple(i[1:])), a.dtype)
        raise Unsupported('mask rank')
    same_shape(a, mask)
    s = compress_info(mask)
    rd = a.reader()
    out = Arr.new((s.cnt,), lambda i: rd(s.sel(i[0])), a.dtype)
    # a[mask] of an identity-like array is a selection of positions
    pt = vc().int('p')
    v = rd((pt,))
    if isinstance(v, S) and v.is_int and v.t.eq(pt.t):
        n = a.shape[0]
        out.selection = (lambda r: conj([cmp('>=', r[0], 0), cmp('<', r[0], n), s.mrd(r)]), lambda r: s.rank(r))
        out.sel_info = s
    return out


def nonzero(mask):
    if mask.dtype != 'b':
        mask = elementwise(lambda x: cmp('!=', x, 0), [mask], 'cmp')
    s = compress_info(mask)
    out = []
    for a in range(mask.ndim):
        arr = Arr.new((s.cnt,), (lambda a: lambda i: s.sel(i[0])[a])(a), 'i')
        if mask.ndim == 1:
            arr.selection = (lambda r: conj([cmp('>=', r[0], 0), cmp('<', r[0], mask.shape[0]), s.mrd(r)]), lambda r: s.rank(r))
            arr.sel_info = s
        out.append(arr)
    return tuple(out)


# ------------------------------------------------------------- last writer
def last_writer(n, hits, nd):
    """for iterations k in [0,n) writing positions {x | hits(k, x)}: function
    x -> (is written, last k).  Characterised at the points it is asked for."""
    c = vc()
    nm = c.fresh_name('lw')
    I, B = z3.IntSort(), z3.BoolSort()
    gp = c.generic_point(nd)
    gk = S(z3.Int('GPK'))
    ks = c.loop_params([T(n), BT(hits(gk, gp if nd > 1 else gp[0]))])
    nk = len(ks)
    W = z3.Function(nm + '.wr', *([I] * (nk + nd)), B)
    K = z3.Function(nm + '.last', *([I] * (nk + nd)), I)

    def facts(args):
        kk, xs = args[:nk], args[nk:]
        x = tuple(S(a) for a in xs)
        w, k = S(W(*(ks + list(xs)))), S(K(*(ks + list(xs))))
        xx = x if nd > 1 else x[0]
        fs = [implies(w, conj([cmp('>=', k, 0), cmp('<', k, n), hits(k, xx)]))]
        for q in c.points1 + [k_ for w_ in c.lw_witness for k_ in w_(x)]:
            fs.append(implies(conj([cmp('>=', q, 0), cmp('<', q, n), hits(q, xx)]),
                              land(w, cmp('<=', q, k))))
        subs = [(a, b) for a, b in zip(ks, kk) if not a.eq(b)]
        if subs:
            fs = [S(z3.substitute(BT(f), *subs)) for f in fs]
        return fs
    c.on_app[nm + '.wr'] = facts
    c.on_app[nm + '.last'] = facts

    def q(x):
        ts = ks + [T(i) for i in x]
        return S(W(*ts)), S(K(*ts))
    return q
