"""Verification-condition core: symbolic scalars, path exploration, obligations.

Numbers are mathematical (ints: Z, floats: R, plus a "not finite" flag); float
literals are read as the decimal they spell.  A scalar is a Python int/Fraction
/bool when concrete and an `S` (z3 term + optional not-finite flag) otherwise.
"""
import time
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 0)


class Unsupported(Exception):
    """The code uses something outside the verified subset: undecided."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, exc, args=()):
        self.exc, self.eargs = exc, args
        super().__init__('%s%r' % (getattr(exc, '__name__', exc), tuple(map(str, args))))


class PathAbort(Exception):
    """Current path is infeasible."""


class LoopCarried(Exception):
    """A loop body reads something a previous iteration wrote."""


VC = None        # the active context


def vc():
    return VC


def set_vc(v):
    global VC
    VC = v


# ------------------------------------------------------------------ scalars
def is_num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def is_conc(x):
    return isinstance(x, (bool, int, Fraction))


class S:
    """symbolic scalar"""
    __slots__ = ('t', 'nan')
    __array_priority__ = 100

    def __init__(self, t, nan=None):
        self.t = t
        if nan is not None and (z3.is_false(nan)):
            nan = None
        self.nan = nan

    @property
    def is_int(self):
        return z3.is_int(self.t)

    @property
    def is_bool(self):
        return z3.is_bool(self.t)

    def __repr__(self):
        s = str(self.t)
        return 'S(%s%s)' % (s[:200], '' if self.nan is None else ' nan? ' + str(self.nan)[:80])

    def __hash__(self):
        return hash((self.t.get_id()))

    def __bool__(self):
        return vc().branch(self)

    def __add__(a, b): return add(a, b)
    def __radd__(a, b): return add(b, a)
    def __sub__(a, b): return sub(a, b)
    def __rsub__(a, b): return sub(b, a)
    def __mul__(a, b): return mul(a, b)
    def __rmul__(a, b): return mul(b, a)
    def __truediv__(a, b): return div(a, b)
    def __rtruediv__(a, b): return div(b, a)
    def __floordiv__(a, b): return floordiv(a, b)
    def __rfloordiv__(a, b): return floordiv(b, a)
    def __mod__(a, b): return mod(a, b)
    def __rmod__(a, b): return mod(b, a)
    def __pow__(a, b): return power(a, b)
    def __rpow__(a, b): return power(b, a)
    def __neg__(a): return mul(-1, a)
    def __pos__(a): return a
    def __abs__(a): return absval(a)
    def __lt__(a, b): return cmp('<', a, b)
    def __le__(a, b): return cmp('<=', a, b)
    def __gt__(a, b): return cmp('>', a, b)
    def __ge__(a, b): return cmp('>=', a, b)
    def __eq__(a, b): return cmp('==', a, b)
    def __ne__(a, b): return cmp('!=', a, b)
    def __and__(a, b): return land(a, b)
    def __rand__(a, b): return land(b, a)
    def __or__(a, b): return lor(a, b)
    def __ror__(a, b): return lor(b, a)
    def __invert__(a): return lnot(a)


def frac(x):
    return z3.RealVal(str(x.numerator) + '/' + str(x.denominator)) if isinstance(x, Fraction) else z3.RealVal(x)


def T(x):
    """z3 term of a scalar"""
    if isinstance(x, S):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return frac(x)
    if isinstance(x, float):
        return frac(Fraction(repr(x)))
    if z3.is_expr(x):
        return x
    raise Unsupported('not a scalar: %s' % type(x).__name__)


def nanof(x):
    return x.nan if isinstance(x, S) else None


def RT(x):
    """z3 term of real sort"""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    t = T(x)
    if z3.is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(t) if z3.is_int(t) else t


def BT(x):
    """z3 bool term (truthiness)"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_num(x):
        return z3.BoolVal(x != 0)
    t = T(x)
    if z3.is_bool(t):
        return t
    return t != 0


def ornan(*xs):
    ns = [n for n in xs if n is not None]
    if not ns:
        return None
    u = {}
    for n in ns:
        u[n.get_id()] = n
    ns = list(u.values())
    return ns[0] if len(ns) == 1 else z3.Or(*ns)


def lift(t, nan=None):
    """z3 term -> scalar, concrete when literal"""
    if nan is None or z3.is_false(nan):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        nan = None
    return S(t, nan)


def _arith(op, a, b):
    if not isinstance(a, S) and not is_conc(a) or not isinstance(b, S) and not is_conc(b):
        raise Unsupported('arithmetic on %s, %s' % (type(a).__name__, type(b).__name__))
    nan = ornan(nanof(a), nanof(b))
    ta, tb = T(a), T(b)
    if z3.is_bool(ta):
        ta = z3.If(ta, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(tb):
        tb = z3.If(tb, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(ta) and not z3.is_int(tb):
        ta = z3.ToReal(ta)
    if z3.is_int(tb) and not z3.is_int(ta):
        tb = z3.ToReal(tb)
    return ta, tb, nan


def add(a, b):
    if is_conc(a) and is_conc(b):
        return a + b
    if is_num(a) and a == 0 and isinstance(a, int) and isinstance(b, S) and not b.is_bool:
        return b
    if is_num(b) and b == 0 and isinstance(b, int) and isinstance(a, S) and not a.is_bool:
        return a
    ta, tb, n = _arith('+', a, b)
    return lift(z3.simplify(ta + tb) if z3.is_int(ta) else ta + tb, n)


def sub(a, b):
    if is_conc(a) and is_conc(b):
        return a - b
    ta, tb, n = _arith('-', a, b)
    return lift(z3.simplify(ta - tb) if z3.is_int(ta) else ta - tb, n)


def mul(a, b):
    if is_conc(a) and is_conc(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if is_num(x) and x == 1 and isinstance(y, S) and not y.is_bool and (isinstance(x, int) or not y.is_int):
            return y
    ta, tb, n = _arith('*', a, b)
    return lift(z3.simplify(ta * tb) if z3.is_int(ta) else ta * tb, n)


def div(a, b):
    if is_conc(a) and is_conc(b):
        if b == 0:
            raise PyRaise(ZeroDivisionError, ('division by zero',))
        return Fraction(a) / Fraction(b)
    ta, tb = RT(a), RT(b)
    if is_conc(b):
        if b == 0:
            raise PyRaise(ZeroDivisionError, ('division by zero',))
        return lift(ta / tb, ornan(nanof(a)))
    if vc().strict_div:
        vc().obligation('no division by zero', tb != 0, kind='safety')
        return lift(ta / tb, ornan(nanof(a), nanof(b)))
    return lift(ta / tb, ornan(nanof(a), nanof(b), z3.simplify(tb == 0)))


def floordiv(a, b):
    if is_conc(a) and is_conc(b):
        if b == 0:
            raise PyRaise(ZeroDivisionError, ('division by zero',))
        r = a // b
        return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
    if is_conc(b) and b > 0 and isinstance(b, int) and isinstance(a, S) and a.is_int:
        return lift(z3.simplify(a.t / z3.IntVal(b)), nanof(a))
    if isint(a) and isint(b):
        if vc().entails(cmp('>', b, 0)):
            return lift(T(a) / T(b), ornan(nanof(a), nanof(b)))
        raise Unsupported('// by possibly non-positive divisor')
    q = div(a, b)
    return S(z3.ToReal(z3.ToInt(RT(q))), nanof(q))


def isint(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, S) and x.is_int)


def mod(a, b):
    if is_conc(a) and is_conc(b):
        if b == 0:
            raise PyRaise(ZeroDivisionError, ('modulo by zero',))
        return a % b
    if isint(a) and isint(b):
        if is_conc(b) and b > 0:
            return lift(z3.simplify(T(a) % T(b)), ornan(nanof(a)))
        # Python: result has the sign of the divisor; z3: always >= 0
        ta, tb = T(a), T(b)
        if vc().entails(S(tb > 0)):
            if not vc().loops:
                vc().axiom(S(z3.Implies(z3.And(ta >= 0, ta < tb), ta % tb == ta)))
            return lift(ta % tb, ornan(nanof(a), nanof(b)))
        vc().obligation('no modulo by zero', tb != 0, kind='safety')
        m = ta % tb
        return lift(z3.If(z3.And(tb < 0, m != 0), m + tb, m), ornan(nanof(a), nanof(b)))
    if is_conc(b) and b > 0:
        ta = RT(a)
        q = z3.ToReal(z3.ToInt(ta / RT(b)))
        return lift(ta - q * RT(b), nanof(a))
    raise Unsupported('real %')


def absval(a):
    if is_conc(a):
        return abs(a)
    return S(z3.If(a.t >= 0, a.t, -a.t), a.nan)


_OPS = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
        '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}


def cmp(op, a, b):
    if is_conc(a) and is_conc(b):
        return _OPS[op](a, b)
    if not (isinstance(a, S) or is_conc(a)) or not (isinstance(b, S) or is_conc(b)):
        if op == '==':
            return False
        if op == '!=':
            return True
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    ta, tb = T(a), T(b)
    if z3.is_bool(ta) and z3.is_bool(tb):
        t = _OPS[op](ta, tb) if op in ('==', '!=') else None
        if t is None:
            raise Unsupported('order on booleans')
        return lift(z3.simplify(t))
    ta, tb, nan = _arith(op, a, b)
    t = z3.simplify(_OPS[op](ta, tb))
    if nan is not None:
        t = z3.Or(nan, t) if op == '!=' else z3.And(z3.Not(nan), t)
    return lift(t)


def land(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return lift(z3.And(BT(a), BT(b)))


def lor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a or b
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return lift(z3.Or(BT(a), BT(b)))


def lnot(a):
    if isinstance(a, bool):
        return not a
    if is_conc(a):
        return not a
    return lift(z3.simplify(z3.Not(BT(a))))


def implies(a, b):
    return lor(lnot(a), b)


def conj(xs):
    r = True
    for x in xs:
        r = land(r, x)
    return r


def ite(c, a, b):
    if is_conc(c):
        return a if c else b
    if a is b:
        return a
    if not (isinstance(a, S) or is_conc(a)) or not (isinstance(b, S) or is_conc(b)):
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return tuple(ite(c, x, y) for x, y in zip(a, b))
        if a == b:
            return a
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    ct = BT(c)
    ta, tb = T(a), T(b)
    if z3.is_bool(ta) != z3.is_bool(tb):
        ta, tb = RT(a), RT(b)
    elif not z3.is_bool(ta) and z3.is_int(ta) != z3.is_int(tb):
        ta, tb = RT(a), RT(b)
    na, nb = nanof(a), nanof(b)
    nan = None
    if na is not None or nb is not None:
        F = z3.BoolVal(False)
        nan = z3.simplify(z3.If(ct, F if na is None else na, F if nb is None else nb))
    if ta.eq(tb):
        return lift(ta, nan)
    return lift(z3.If(ct, ta, tb), nan)


def minimum(a, b):
    if is_conc(a) and is_conc(b):
        return min(a, b)
    n = ornan(nanof(a), nanof(b))
    r = ite(cmp('<=', strip(a), strip(b)), strip(a), strip(b))
    return withnan(r, n)


def maximum(a, b):
    if is_conc(a) and is_conc(b):
        return max(a, b)
    n = ornan(nanof(a), nanof(b))
    r = ite(cmp('>=', strip(a), strip(b)), strip(a), strip(b))
    return withnan(r, n)


def strip(x):
    return S(x.t) if isinstance(x, S) else x


def withnan(x, n):
    if n is None:
        return x
    return S(T(x), n)


def finite(x):
    """goal: x is a finite number"""
    n = nanof(x)
    return True if n is None else lift(z3.simplify(z3.Not(n)))


def toint(x):
    """int(x): truncation toward zero"""
    if isinstance(x, bool):
        return int(x)
    if is_conc(x):
        return int(x)
    if x.is_bool:
        return S(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if x.is_int:
        return x
    if x.nan is not None:
        vc().obligation('int() of a finite number', z3.Not(x.nan), kind='safety')
    t = simp_real(x.t)
    return lift(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def floor_(x):
    if is_conc(x):
        import math
        return math.floor(x)
    if x.is_int:
        return x
    return lift(z3.ToInt(simp_real(x.t)), x.nan)


def ceil_(x):
    if is_conc(x):
        import math
        return math.ceil(x)
    if x.is_int:
        return x
    return lift(-z3.ToInt(-simp_real(x.t)), x.nan)


def toreal(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    return S(RT(x), x.nan)


def simp_real(t):
    return z3.simplify(t, som=True)


# ------------------------------------------------ transcendental functions
R_ = z3.RealSort()
UF = {n: z3.Function(n, R_, R_) for n in ('exp', 'cos', 'sin', 'arccos', 'sqrt', 'log')}
POW = z3.Function('pow', R_, R_, R_)
PI = z3.Real('PI')
PI_LO, PI_HI = Fraction('3.14159265358979'), Fraction('3.1415926535898')


def pi():
    vc().axiom(z3.And(PI > frac(PI_LO), PI < frac(PI_HI)))
    return S(PI)


def uf(name, x):
    if is_conc(x) and not isinstance(x, bool):
        if x == 0:
            if name in ('exp', 'cos'):
                return Fraction(1)
            if name in ('sin', 'sqrt'):
                return Fraction(0)
        if name == 'sqrt' and x > 0:
            import math
            n, d = Fraction(x).numerator, Fraction(x).denominator
            if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return Fraction(math.isqrt(n), math.isqrt(d))
    arg = simp_real(RT(x))
    if name in ('cos',) and z3.is_app(arg):
        pass
    app = UF[name](arg)
    c = vc()
    nan = nanof(x)
    if name == 'sqrt':
        nan = ornan(nan, z3.simplify(arg < 0))
    elif name == 'arccos':
        nan = ornan(nan, z3.simplify(z3.Or(arg < -1, arg > 1)))
    elif name == 'log':
        nan = ornan(nan, z3.simplify(arg <= 0))
    c.uf_axioms(name, arg, app)
    return S(app, nan)


def power(a, b):
    if is_conc(b) and Fraction(b).denominator == 1 and abs(b) <= 8:
        n = int(b)
        if n == 0:
            return 1 if isinstance(a, int) else Fraction(1)
        r = a
        for _ in range(abs(n) - 1):
            r = mul(r, a)
        if n < 0:
            return div(1, r)
        if isinstance(b, Fraction) and isinstance(r, int):
            r = Fraction(r)
        return r
    if is_conc(b) and b == Fraction(1, 2):
        return uf('sqrt', a)
    if is_conc(a) and is_conc(b) and a == 0 and b > 0:
        return Fraction(0)
    if is_conc(a) and a == 1:
        return Fraction(1)
    x, p = simp_real(RT(a)), simp_real(RT(b))
    app = POW(x, p)
    vc().pow_axioms(x, p, app)
    nan = ornan(nanof(a), nanof(b), z3.simplify(z3.Or(x < 0, z3.And(x == 0, p < 0))))
    return S(app, nan)


# --------------------------------------------------------------- symbol sets
_sym_cache = {}


def symbols(t):
    """ids of uninterpreted constants/functions in t"""
    k = t.get_id()
    r = _sym_cache.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    seen, out, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    _sym_cache[k] = (t, out)
    return out


def consts_of(t):
    """uninterpreted 0-ary constants of t, in first-occurrence order"""
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st.extend(reversed(x.children()))
    return out


def apps_of(t, pred):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if pred(x):
                out.append(x)
            st.extend(x.children())
    return out


# --------------------------------------------------------------- the context
class Obligation:
    def __init__(self, unit, name, kind, path):
        self.unit, self.name, self.kind, self.path = unit, name, kind, path
        self.status = None
        self.backend = ''
        self.time = 0.0
        self.detail = ''
        self.model = None

    def as_dict(self):
        d = {'unit': self.unit, 'name': self.name, 'kind': self.kind, 'status': self.status,
             'backend': self.backend, 'time_s': round(self.time, 3)}
        if self.detail:
            d['detail'] = self.detail
        if self.model:
            d['model'] = self.model
        return d


class Frame:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.pending = []
        self.conds = []


_int_only = {}


def int_only(t):
    """no real-sorted subterm"""
    k = t.get_id()
    r = _int_only.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    seen, st, ok = set(), [t], True
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_real(x):
            ok = False
            break
        st.extend(x.children())
    _int_only[k] = (t, ok)
    return ok


class _Assuming:
    def __init__(self, ctx, fs):
        self.ctx, self.fs = ctx, fs

    def __enter__(self):
        self.n = len(self.ctx.facts)
        for f in self.fs:
            self.ctx.assume(f)
        self.ctx.push_memo()

    def __exit__(self, *a):
        del self.ctx.facts[self.n:]
        self.ctx.pop_memo()


class Ctx:
    """One verification unit: explores all paths of `fn` and discharges goals."""
    def __init__(self, unit, timeout_ms=20000, cross=False):
        self.unit = unit
        self.timeout = timeout_ms
        self.cross = cross
        self.obligs = []
        self.strict_div = False
        self.queries = 0
        self.solver_time = 0.0
        self.backends = {}
        self.deadline = None
        self.notes = set()
        self.paths = 0
        self.where = ''
        self.functions = set()
        self.assumed = set()
        self.reset()

    def reset(self):
        from . import sums
        self.facts = []          # path-scoped
        self.axioms = []         # definitional / universally valid
        self._ax_ids = {}
        self.frames = []
        self.fresh_n = 0
        self.inst = {}
        self.pow_inst = []
        self.sums = sums.SumTable(self)
        self.loops = []
        self.serial = 0
        self.selections = []
        self.sel_cache = []
        self.points1 = []
        self.on_app = {}
        self.text = {}             # private-use character -> the number it is the text of
        self.sum_depth = 0
        self._sumfacts = {}
        self.lw_witness = []       # position -> candidate iterations that write it
        self.sum_signs = True      # derive signs of sums from their terms
        self.sum_bounds = []
        self.sum_witness = []
        self._scan_seen = {}
        self._gen = {}
        self._ecache = {}
        self._memos = [({}, None)]
        self._gp = {}
        self.try_depth = 0
        self.decides = True
        self.decides_deep = False
        self.keep = []

    # -- symbols
    def fresh_name(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def next_serial(self):
        self.serial += 1
        return self.serial

    @property
    def loop_depth(self):
        return len(self.loops)

    def int(self, name):
        return S(z3.Int(self.fresh_name(name)))

    def real(self, name):
        return S(z3.Real(self.fresh_name(name)))

    def bool(self, name):
        return S(z3.Bool(self.fresh_name(name)))

    def generic_point(self, nd):
        if nd not in self._gp:
            self._gp[nd] = tuple(S(z3.Int('GP%d.%d' % (nd, i))) for i in range(nd))
        return self._gp[nd]

    def assume(self, f):
        f = BT(f)
        if z3.is_true(f):
            return
        self.facts.append(f)

    def axiom(self, f):
        f = BT(f)
        if z3.is_true(f) or f.get_id() in self._ax_ids:
            return
        self._ax_ids[f.get_id()] = f
        self.axioms.append(f)

    def point(self, *ks):
        """ghost instantiation points for loop/selection characterisations"""
        for k in ks:
            self.points1.append(k)
        # already-instantiated loop facts must be redone
        self._scan_seen = {}

    def assuming(self, fs):
        return _Assuming(self, fs)

    def simp_memo(self):
        key = (len(self.facts), self.facts[-1].get_id() if self.facts else 0)
        m, k = self._memos[-1]
        if k != key:
            m = {}
            self._memos[-1] = (m, key)
        return m

    def push_memo(self):
        self._memos.append(({}, None))

    def pop_memo(self):
        self._memos.pop()

    def uf_axioms(self, name, arg, app):
        L = self.inst.setdefault(name, {})
        if app.get_id() in L:
            return
        if name == 'exp':
            self.axiom(app > 0)
            self.axiom(app >= 1 + arg)
            self.axiom(z3.Implies(arg >= 0, app >= 1 + arg + arg * arg / 2))
            self.axiom(z3.Implies(arg < 0, app < 1))
            self.axiom(z3.Implies(arg == 0, app == 1))
            for a2, p2 in list(L.values())[-6:]:
                self.axiom(z3.And(z3.Implies(arg < a2, app < p2), z3.Implies(arg > a2, app > p2),
                                  z3.Implies(arg == a2, app == p2)))
        elif name in ('cos', 'sin'):
            self.axiom(z3.And(app >= -1, app <= 1))
            other = UF['sin' if name == 'cos' else 'cos'](arg)
            if name == 'cos':
                self.axiom(z3.And(other >= -1, other <= 1))
            self.axiom(app * app + other * other == 1)
        elif name == 'arccos':
            pi()
            self.axiom(z3.Implies(z3.And(arg >= -1, arg <= 1),
                                  z3.And(app >= 0, app <= PI, UF['cos'](app) == arg)))
            self.axiom(z3.Implies(arg >= 1, app == 0))
            self.axiom(z3.Implies(z3.And(arg < 1, arg >= -1), app > 0))
            self.axiom(z3.Implies(arg == -1, app == PI))
        elif name == 'sqrt':
            self.axiom(z3.Implies(arg >= 0, z3.And(app >= 0, app * app == arg)))
            self.axiom(z3.Implies(arg > 0, app > 0))
        L[app.get_id()] = (arg, app)

    def pow_axioms(self, x, p, app):
        if any(a.eq(app) for _, _, a in self.pow_inst):
            return
        self.axiom(z3.Implies(x > 0, app > 0))
        self.axiom(z3.Implies(z3.And(x == 0, p > 0), app == 0))
        self.axiom(z3.Implies(z3.And(x > 0, x <= 1, p >= 0), app <= 1))
        self.axiom(z3.Implies(z3.And(x >= 1, p >= 0), app >= 1))
        self.axiom(z3.Implies(z3.And(x == 1), app == 1))
        self.axiom(z3.Implies(z3.And(x > 0, p == 0), app == 1))
        for x2, p2, a2 in self.pow_inst[-6:]:
            if p2.eq(p):
                self.axiom(z3.Implies(z3.And(x >= 0, x2 >= 0, p > 0),
                                      z3.And(z3.Implies(x < x2, app < a2), z3.Implies(x > x2, app > a2),
                                             z3.Implies(x == x2, app == a2))))
        self.pow_inst.append((x, p, app))

    # -- axiom instantiation for applications met in terms
    MAXGEN = 3

    def saturate(self, terms):
        work = [(t, 0) for t in terms]
        while work:
            t, gen = work.pop()
            st = [t]
            while st:
                x = st.pop()
                k = x.get_id()
                if k in self._scan_seen:
                    continue
                self._scan_seen[k] = x
                st.extend(x.children())
                if not z3.is_app(x) or x.num_args() == 0 or x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    continue
                nm = x.decl().name()
                n0 = len(self.axioms)
                if nm in UF:
                    self.uf_axioms(nm, x.arg(0), x)
                elif nm == 'pow':
                    self.pow_axioms(x.arg(0), x.arg(1), x)
                elif nm in self.on_app and gen <= self.MAXGEN:
                    for f in self.on_app[nm](x.children()):
                        self.axiom(f)
                for a in self.axioms[n0:]:
                    work.append((a, gen + 1))

    # -- solving
    def all_facts(self, goal=None):
        n0 = 0
        self.saturate(([goal] if goal is not None else []) + self.facts)
        while n0 < len(self.axioms):
            n1 = len(self.axioms)
            self.saturate(self.axioms[n0:])
            n0 = n1
        fs = self.axioms + self.facts
        if goal is None:
            return fs
        want = set(symbols(goal))
        out, remaining, changed = [], [(f, symbols(f)) for f in fs], True
        while changed:
            changed = False
            nxt = []
            for f, sy in remaining:
                if sy & want or not sy:
                    out.append(f)
                    if not sy <= want:
                        want |= sy
                        changed = True
                else:
                    nxt.append((f, sy))
            remaining = nxt
        return out

    def check(self, fs, timeout=None, want_model=False):
        self.queries += 1
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout or self.timeout))
        for f in fs:
            s.add(f)
        r = s.check()
        self.solver_time += time.time() - t0
        m = s.model() if (want_model and r == z3.sat) else None
        return r, m, s

    def entails_raw(self, g, timeout=1500, deep=False):
        """facts |- g, for a z3 term; incomplete, side-effect free"""
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        ck = (g.get_id(), deep, len(self.facts), self.facts[-1].get_id() if self.facts else 0)
        e = self._ecache.get(ck)
        if e is not None and e[0].eq(g) and (not self.facts or e[2].eq(self.facts[-1])):
            return e[1]
        io = int_only(g)
        if io:
            fs = [f for f in self.facts if int_only(f)] + [a for a in self.axioms if int_only(a)]
            sy = set(symbols(g))
            r, _, _ = self.check(relevant(fs, sy) + [z3.Not(g)], timeout)
            ok = r == z3.unsat
            if not ok and (deep or any(d in self.on_app for d in sy)):
                r, _, _ = self.check(self.all_facts(g) + [z3.Not(g)], timeout)
                ok = r == z3.unsat
        else:
            fs = self.all_facts(g)
            ex = self.sum_extra([g] + fs)
            if ex:
                fs = self.all_facts(z3.And(g, *ex)) + ex
            r, _, _ = self.check(fs + [z3.Not(g)], min(timeout, 500))
            if r == z3.unknown:
                if self.valid_abs(fs, g):
                    r = z3.unsat
                elif timeout > 500:
                    r, _, _ = self.check(fs + [z3.Not(g)], timeout)
            ok = r == z3.unsat
        self._ecache[ck] = (g, ok, self.facts[-1] if self.facts else None)
        return ok

    def valid_abs(self, fs, g, timeout=1500):
        """proof attempt with products and quotients of terms left uninterpreted
        (a generalisation of the goal, so unsat is conclusive)"""
        a = Abstract()
        out = [a(f) for f in fs] + [a(z3.Not(g))]
        if not a.used:
            return False
        r, _, _ = self.check(out, timeout)
        return r == z3.unsat

    def sum_extra(self, ts):
        """bounds of the sums occurring in ts"""
        if not self.sums.defs:
            return []
        out = []
        for a in self.sums.apps(ts):
            out += self.sums.facts(a)
        return out

    def entails(self, g, timeout=1500):
        if isinstance(g, bool):
            return g
        g = BT(g)
        return self.entails_raw(g, timeout)

    entails_q = entails

    def feasible(self, g, timeout=3000):
        g = z3.simplify(BT(g))
        if z3.is_false(g):
            return False
        r, _, _ = self.check(self.all_facts(g) + [g], timeout)
        return r != z3.unsat

    # -- branching
    def branch(self, cond):
        if is_conc(cond):
            return bool(cond)
        if isinstance(cond, S) and not cond.is_bool:
            cond = S(BT(cond))
        c = z3.simplify(cond.t)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
            fr.pos += 1
            self.facts.append(c if d else z3.Not(c))
            fr.conds.append(self.facts[-1])
            return d
        ft = self.feasible(S(c))
        ff = self.feasible(S(z3.Not(c)))
        if not ft and not ff:
            raise PathAbort()
        d = ft
        if ft and ff:
            fr.pending.append(fr.prefix[:fr.pos] + [False])
        fr.prefix = fr.prefix[:fr.pos] + [d]
        fr.pos += 1
        self.facts.append(c if d else z3.Not(c))
        if ft and ff:
            fr.conds.append(self.facts[-1])
        return d

    def loop_params(self, terms):
        """iteration counters of the enclosing summarised loops that occur in terms"""
        out = []
        cs = []
        for t in terms:
            if z3.is_expr(t):
                cs += consts_of(t)
        for L in self.loops:
            for k in getattr(L, 'ks', None) or [L.k]:
                if any(x.eq(k.t) for x in cs):
                    out.append(k.t)
        return out

    def explore(self, fn, limit=64):
        """run fn() once per feasible decision sequence (nested); list of
        (path condition terms, result)"""
        work = [[]]
        out = []
        nf = len(self.facts)
        n = 0
        while work:
            pre = work.pop()
            n += 1
            if n > limit:
                raise Unsupported('too many paths in a loop body')
            self.frames.append(Frame(pre))
            try:
                r = fn()
                out.append((list(self.frames[-1].conds), r))
            except PathAbort:
                pass
            finally:
                fr = self.frames.pop()
                work.extend(fr.pending)
                del self.facts[nf:]
        return out

    def run(self, fn, limit=500):
        """top-level: re-executes fn(ctx) from scratch per path"""
        work = [[]]
        n = 0
        while work:
            pre = work.pop()
            self.paths += 1
            n += 1
            if n > limit:
                raise Unsupported('too many paths')
            self.reset()
            self.frames.append(Frame(pre))
            try:
                fn(self)
            except PathAbort:
                pass
            work.extend(self.frames[0].pending)

    # -- obligations
    def obligation(self, name, goal, kind='post', timeout=None, hint=None):
        """named proof obligation under the current facts"""
        goal = BT(goal)
        if len(self.frames) == 1 and self.frames[0].pos < len(self.frames[0].prefix):
            # already decided on the sibling path sharing this prefix
            if kind != 'post':
                self.facts.append(goal)
            return True
        o = Obligation(self.unit, name, kind, list(self.frames[0].prefix) if self.frames else [])
        self.obligs.append(o)
        if self.deadline and time.time() > self.deadline:
            o.status = 'unknown'
            o.detail = 'time budget of the check used up'
            return False
        t0 = time.time()
        from . import prover
        prover.discharge(self, o, goal, timeout or self.timeout)
        o.time = time.time() - t0
        self.backends[o.backend] = self.backends.get(o.backend, 0) + 1
        if o.status == 'proved' and kind != 'post':
            self.facts.append(goal)
        return o.status == 'proved'

    def prove(self, name, goal, kind='post', timeout=None):
        return self.obligation(name, goal, kind, timeout)

    def safety(self, name, cond, exc=None):
        if cond is True:
            return
        if cond is False:
            if exc is not None:
                raise PyRaise(exc, (name,))
            self.obligation(name, False, 'safety')
            raise PathAbort()
        if self.try_depth and exc is not None:
            if not self.branch(cond):
                raise PyRaise(exc, (name,))
            return
        if not self.entails(cond):
            self.obligation('%s%s' % (name, ' (%s)' % self.where if self.where else ''), cond, 'safety')
            self.assume(cond)
        elif not (len(self.frames) == 1 and self.frames[0].pos < len(self.frames[0].prefix)):
            o = Obligation(self.unit, '%s%s' % (name, ' (%s)' % self.where if self.where else ''), 'safety', [])
            o.status, o.backend = 'proved', 'z3'
            self.obligs.append(o)
            self.backends['z3'] = self.backends.get('z3', 0) + 1

    def cover(self, name):
        """vacuity guard: the current path condition must be satisfiable"""
        o = Obligation(self.unit, 'reachable: ' + name, 'cover', [])
        self.obligs.append(o)
        t0 = time.time()
        r, m, s = self.check(self.all_facts(), self.timeout)
        o.time = time.time() - t0
        o.backend = 'z3'
        # unknown: nonlinear facts; only a refutation is an error
        o.status = 'proved' if r == z3.sat else ('unknown' if r == z3.unknown else 'refuted')
        if r == z3.unsat:
            o.detail = 'contradictory preconditions (vacuous proof)'


def relevant(fs, want):
    want = set(want)
    out, remaining, changed = [], [(f, symbols(f)) for f in fs], True
    while changed:
        changed = False
        nxt = []
        for f, sy in remaining:
            if sy & want or not sy:
                out.append(f)
                if not sy <= want:
                    want |= sy
                    changed = True
            else:
                nxt.append((f, sy))
        remaining = nxt
    return out


class Abstract:
    """nonlinear products and quotients as uninterpreted functions"""
    def __init__(self):
        self.memo = {}
        self.used = False

    def __call__(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self.go(t)
        self.memo[k] = (t, r)
        return r

    def go(self, t):
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        ch = [self(c) for c in t.children()]
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            num = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
            oth = []
            for c in ch:
                if z3.is_rational_value(c) or z3.is_int_value(c):
                    continue
                # flatten
                oth.append(c)
            if len(oth) > 1:
                self.used = True
                oth.sort(key=lambda c: c.get_id())
                f = z3.Function('umul%d%s' % (len(oth), t.sort().name()), *([t.sort()] * (len(oth) + 1)))
                m = f(*oth)
                return z3.Product(*(num + [m])) if num else m
            return z3.Product(*ch)
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            self.used = True
            f = z3.Function('udivReal', z3.RealSort(), z3.RealSort(), z3.RealSort())
            return f(*ch)
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*ch)
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        return t.decl()(*ch)
