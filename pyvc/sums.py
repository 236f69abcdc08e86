"""Finite sums over integer ranges with a symbolic number of terms.

SUM_k(lo, hi, params) is an uninterpreted application that stands for
sum_{lo<=x<hi} body_k(x, params).  `normalise` rewrites a sum by lemmas that are
themselves discharged (see lemmas.py): rebasing, linearity, constant terms,
telescoping of adjacent windows, block-constant terms, rotation, extensional
equality; each side condition is a solver query under the current facts.
"""
import hashlib
import math
import z3
from . import core
from .core import S, T, RT, BT, lift, Unsupported, consts_of, apps_of

I_ = z3.IntSort()


def is_div(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV


def is_mod(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD


def linear_parts(t):
    """integer linear form: ({atom_id: (atom, coeff)}, const) ; nonlinear = atom"""
    out, const = {}, 0
    st = [(t, 1)]
    while st:
        x, c = st.pop()
        if z3.is_int_value(x):
            const += c * x.as_long()
            continue
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_ADD:
            st.extend((y, c) for y in x.children())
        elif k == z3.Z3_OP_SUB:
            ch = x.children()
            st.append((ch[0], c))
            st.extend((y, -c) for y in ch[1:])
        elif k == z3.Z3_OP_UMINUS:
            st.append((x.children()[0], -c))
        elif k == z3.Z3_OP_MUL:
            ch = x.children()
            cs = [y for y in ch if z3.is_int_value(y)]
            vs = [y for y in ch if not z3.is_int_value(y)]
            m = 1
            for y in cs:
                m *= y.as_long()
            if len(vs) == 0:
                const += c * m
            elif len(vs) == 1:
                st.append((vs[0], c * m))
            else:
                a = z3.Product(*vs) if cs else x
                e = out.get(a.get_id(), (a, 0))
                out[a.get_id()] = (a, e[1] + c * m)
        else:
            e = out.get(x.get_id(), (x, 0))
            out[x.get_id()] = (x, e[1] + c)
    return {k: v for k, v in out.items() if v[1] != 0}, const


def build_linear(parts, const):
    ts = [a if c == 1 else z3.IntVal(c) * a for a, c in parts]
    if const or not ts:
        ts.append(z3.IntVal(const))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def simp(ctx, t, depth=0):
    """rewrite div/mod by constants and decided conditionals under the facts"""
    memo = ctx.simp_memo()

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        r = step(x)
        memo[k] = (x, r)
        return r

    def step(x):
        if not z3.is_app(x) or x.num_args() == 0:
            return x
        kind = x.decl().kind()
        if kind == z3.Z3_OP_ITE:
            c = z3.simplify(go(x.arg(0)))
            if z3.is_true(c):
                return go(x.arg(1))
            if z3.is_false(c):
                return go(x.arg(2))
            if ctx.decides:
                if ctx.entails_raw(c):
                    return go(x.arg(1))
                if ctx.entails_raw(z3.Not(c)):
                    return go(x.arg(2))
            # branches under their own condition
            a, b = go(x.arg(1)), go(x.arg(2))
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        ch = [go(y) for y in x.children()]
        if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            c = ch[1].as_long()
            parts, const = linear_parts(z3.simplify(ch[0]))
            q, r = [], []
            for a, m in parts.values():
                if m % c == 0:
                    q.append((a, m // c))
                else:
                    r.append((a, m))
            # put the constant on either side
            rem = build_linear(r, const % c)
            qt = build_linear(q, const // c)
            if not r:
                return z3.simplify(qt) if kind == z3.Z3_OP_IDIV else z3.IntVal(const % c)
            for cc, qq in ((const % c, const // c), (const % c - c, const // c + 1), (const, 0)):
                rem = build_linear(r, cc)
                if ctx.entails_raw(z3.And(rem >= 0, rem < c)):
                    return z3.simplify(build_linear(q, qq)) if kind == z3.Z3_OP_IDIV else z3.simplify(rem)
            if ctx.decides_deep:
                for j in (-1, 1):
                    rem = build_linear(r, const % c - j * c)
                    if ctx.entails_raw(z3.And(rem >= 0, rem < c)):
                        return z3.simplify(build_linear(q, const // c + j)) if kind == z3.Z3_OP_IDIV else z3.simplify(rem)
            # (g*A + rest) div c with g | c and 0 <= rest < g
            gs = sorted({math.gcd(m, c) for a, m in r} - {1}, reverse=True)
            for g in gs:
                A = [(a, m // g) for a, m in r if m % g == 0]
                rest = [(a, m) for a, m in r if m % g != 0]
                k0 = const % c
                rr = build_linear(rest, k0 % g)
                if not rest or ctx.entails_raw(z3.And(rr >= 0, rr < g)):
                    Ab = go(z3.simplify(build_linear(A, k0 // g)))
                    if g == c:
                        continue
                    if kind == z3.Z3_OP_IDIV:
                        return z3.simplify(go(Ab / z3.IntVal(c // g)) + qt)
                    return z3.simplify(g * go(Ab % z3.IntVal(c // g)) + rr)
            base = z3.simplify(build_linear(r, const % c))
            return z3.simplify(base / c + qt) if kind == z3.Z3_OP_IDIV else base % c
        if kind == z3.Z3_OP_MOD and not z3.is_int_value(ch[1]):
            if ctx.entails_raw(z3.And(ch[0] >= 0, ch[0] < ch[1])):
                return ch[0]
        if all(a.eq(b) for a, b in zip(ch, x.children())):
            return x
        return x.decl()(*ch) if kind == z3.Z3_OP_UNINTERPRETED else rebuild(x, ch)
    return z3.simplify(go(t))


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return x.decl()(*ch)


def merge_toreal(t):
    """integer-valued parts of real sums back under one to_real"""
    memo = {}

    def ival(x):
        """integer term of an integer-valued real summand, or None"""
        if z3.is_rational_value(x):
            return z3.IntVal(x.numerator_as_long()) if x.denominator_as_long() == 1 else None
        if z3.is_to_real(x):
            return x.arg(0)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2:
            a, b = x.arg(0), x.arg(1)
            if z3.is_rational_value(a) and a.denominator_as_long() == 1 and z3.is_to_real(b):
                return z3.IntVal(a.numerator_as_long()) * b.arg(0)
        return None

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        r = x
        if z3.is_app(x) and x.num_args():
            ch = [go(y) for y in x.children()]
            if not all(a.eq(b) for a, b in zip(ch, x.children())):
                r = rebuild(x, ch)
            if x.decl().kind() == z3.Z3_OP_ADD and z3.is_real(x):
                iv = [(c, ival(c)) for c in ch]
                ints = [i for _, i in iv if i is not None]
                if len(ints) > 1 and not all(z3.is_int_value(i) for i in ints):
                    rest = [c for c, i in iv if i is None]
                    m = z3.ToReal(build_linear(*lp(z3.Sum(*ints))))
                    r = z3.Sum(*([m] + rest)) if rest else m
        memo[k] = (x, r)
        return r

    def lp(s):
        p, c = linear_parts(s)
        return list(p.values()), c
    return go(t)


def has(t, c):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        st.extend(x.children())
    return False


_COMM = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}
_dig = {}


def digest(t):
    """structural digest up to the order of commutative arguments"""
    k = t.get_id()
    e = _dig.get(k)
    if e is not None and e[0].eq(t):
        return e[1]
    if z3.is_app(t):
        ch = [digest(c) for c in t.children()]
        if t.decl().kind() in _COMM:
            ch.sort()
        head = t.decl().name() + ':' + str(t.decl().kind()) + ':' + t.sort().name()
        if t.num_args() == 0:
            head += ':' + t.sexpr()
        d = hashlib.sha256('|'.join([head] + ch).encode()).hexdigest()
    else:
        d = hashlib.sha256(t.sexpr().encode()).hexdigest()
    _dig[k] = (t, d)
    return d


def is_square(b):
    k = b.decl().kind()
    if k == z3.Z3_OP_MUL and b.num_args() == 2:
        return b.arg(0).eq(b.arg(1))
    return k == z3.Z3_OP_POWER and z3.is_rational_value(b.arg(1)) and b.arg(1).denominator_as_long() == 1 and b.arg(1).numerator_as_long() % 2 == 0


class SumTable:
    def __init__(self, ctx):
        self.ctx = ctx
        self.defs = {}         # decl name -> (x, params, body, decl)
        self.keys = {}
        self.n = 0

    # -- construction
    def make(self, body, x, lo, hi):
        """body: z3 real term over const x; lo, hi z3 ints"""
        body = merge_toreal(z3.simplify(body))
        d = self.shift(body, x)
        if d is not None:
            body = merge_toreal(z3.simplify(z3.substitute(body, (x, x - d))))
            lo, hi = lo + d, hi + d
        params = [c for c in consts_of(body) if not c.eq(x)]
        gen = z3.Int('SUM.x')
        ps = [z3.Const('SUM.p%d.%s' % (i, c.sort().name()), c.sort()) for i, c in enumerate(params)]
        key_t = z3.substitute(body, [(x, gen)] + list(zip(params, ps)))
        k = digest(key_t)
        e = self.keys.get(k)
        if e is None:
            self.n += 1
            nm = 'SUM_%d' % self.n
            d = z3.Function(nm, I_, I_, *([p.sort() for p in ps] + [z3.RealSort()]))
            self.keys[k] = e = (key_t, nm)
            self.defs[nm] = (gen, ps, key_t, d)
        nm = e[1]
        d = self.defs[nm][3]
        return d(z3.simplify(lo), z3.simplify(hi), *params)

    def shift(self, body, x):
        """common symbolic offset e when x occurs only as x + e (+ constants)"""
        rests = []
        st, seen = [body], set()
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_int(t) and has(t, x):
                parts, const = linear_parts(t)
                e = parts.get(x.get_id())
                if e is not None:
                    others = [(a, c) for k, (a, c) in parts.items() if k != x.get_id()]
                    if e[1] != 1:
                        return None
                    st.extend(a for a, c in others if has(a, x))
                    rests.append(z3.simplify(build_linear([p for p in others if not has(p[0], x)], 0)))
                    continue
                if const or len(parts) > 1:
                    st.extend(a for a, c in parts.values() if has(a, x))
                    continue
            if z3.is_to_real(t) and t.arg(0).eq(x):
                return None
            st.extend(t.children())
        if not rests or z3.is_int_value(rests[0]):
            return None
        if all(r.eq(rests[0]) or linear_parts(r - rests[0]) == ({}, 0) for r in rests):
            return rests[0]
        return None

    def range_sum(self, fn, lo, hi):
        """fn: index scalar -> scalar; returns scalar"""
        ctx = self.ctx
        ln = core.sub(hi, lo)
        if core.is_conc(ln):
            if ln <= 0:
                return core.Fraction(0)
            if ln <= 1:
                r = fn(lo)
                for i in range(1, ln):
                    r = core.add(r, fn(core.add(lo, i)))
                return core.toreal(r)
        x = ctx.int('x')
        with ctx.assuming([core.cmp('<=', lo, x), core.cmp('<', x, hi)]):
            b = fn(x)
            nan = core.nanof(b)
            bt = RT(b)
            if nan is not None:
                if ctx.entails(S(z3.Not(nan))):
                    nan = None
        if nan is not None:
            # some element not finite: opaque flag, implied absent when none is
            nn = self.make(z3.If(nan, z3.RealVal(1), z3.RealVal(0)), x.t, T(lo), T(hi))
            nan = nn > 0
        return S(self.make(bt, x.t, T(lo), T(hi)), nan)

    # -- access
    def is_sum(self, t):
        return z3.is_app(t) and t.decl().name() in self.defs

    def body_at(self, app, y):
        """body with the bound variable replaced by lo + y"""
        x, ps, body, d = self.defs[app.decl().name()]
        lo = app.arg(0)
        subs = [(x, z3.simplify(lo + y))] + [(p, app.arg(2 + i)) for i, p in enumerate(ps)]
        return z3.substitute(body, subs)

    def body_x(self, app, x):
        xx, ps, body, d = self.defs[app.decl().name()]
        return z3.substitute(body, [(xx, x)] + [(p, app.arg(2 + i)) for i, p in enumerate(ps)])

    # -- normalisation
    def normalise(self, t, reps, depth=0):
        """rewrite all sums in t (innermost last); reps: shared representatives"""
        apps = self.outer_sums(t)
        if not apps:
            return t
        sub = []
        for a in apps:
            sub.append((a, self.norm_app(a, reps, depth)))
        return z3.simplify(z3.substitute(t, sub))

    def outer_sums(self, t):
        seen, out, st = set(), [], [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if self.is_sum(x):
                out.append(x)
                continue
            st.extend(x.children())
        return out

    def norm_app(self, app, reps, depth):
        ctx = self.ctx
        key = app.get_id()
        if key in reps['memo'] and reps['memo'][key][0].eq(app):
            return reps['memo'][key][1]
        if depth > 6:
            return app
        lo, hi = app.arg(0), app.arg(1)
        L = z3.simplify(simp(ctx, hi - lo))
        if z3.is_int_value(L) and L.as_long() <= 0:
            return z3.RealVal(0)
        y = z3.Int(ctx.fresh_name('y'))
        with ctx.assuming([S(y >= 0), S(y < L)]):
            b = simp(ctx, self.body_at(app, y))
            r = self.sum_poly(b, y, L, reps, depth)
        todo = [a for a in self.outer_sums(r) if not a.eq(app) and not (a.get_id() in reps['memo'] and reps['memo'][a.get_id()][1].eq(a))]
        if todo and depth < 4:
            # sums among the factors that do not depend on the bound variable
            r = z3.simplify(z3.substitute(r, [(a, self.norm_app(a, reps, depth + 1)) for a in todo]))
        reps['memo'][key] = (app, r)
        return r

    def sum_poly(self, b, y, L, reps, depth):
        """sum_{0<=y<L} b"""
        b = z3.simplify(b, som=False)
        if not has(b, y):
            if z3.is_int_value(L):
                return z3.RealVal(max(0, L.as_long())) * b
            if not self.ctx.entails_raw(L >= 0):
                L = z3.If(L >= 0, L, z3.IntVal(0))
            return z3.ToReal(L) * b
        k = b.decl().kind()
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*[self.sum_poly(c, y, L, reps, depth) for c in b.children()])
        if k == z3.Z3_OP_SUB:
            ch = b.children()
            return self.sum_poly(ch[0], y, L, reps, depth) - z3.Sum(*[self.sum_poly(c, y, L, reps, depth) for c in ch[1:]])
        if k == z3.Z3_OP_UMINUS:
            return -self.sum_poly(b.children()[0], y, L, reps, depth)
        if k == z3.Z3_OP_MUL:
            ch = flat_mul(b)
            free = [c for c in ch if not has(c, y)]
            dep = [c for c in ch if has(c, y)]
            # a y-dependent quotient with a y-free denominator also factors
            if free:
                core_ = dep[0] if len(dep) == 1 else z3.Product(*dep)
                return z3.Product(*(free + [self.sum_poly(core_, y, L, reps, depth)]))
            dep2, outf = [], []
            for c in dep:
                if c.decl().kind() == z3.Z3_OP_DIV and not has(c.arg(1), y):
                    outf.append(1 / c.arg(1))
                    dep2.append(c.arg(0))
                else:
                    dep2.append(c)
            if outf:
                return z3.Product(*(outf + [self.sum_poly(z3.Product(*dep2), y, L, reps, depth)]))
        if k == z3.Z3_OP_DIV:
            n, d = b.children()
            if not has(d, y):
                return self.sum_poly(n, y, L, reps, depth) / d
            if n.decl().kind() == z3.Z3_OP_MUL:
                ch = flat_mul(n)
                free = [c for c in ch if not has(c, y)]
                dep = [c for c in ch if has(c, y)]
                if free:
                    core_ = (dep[0] if len(dep) == 1 else z3.Product(*dep)) / d if dep else z3.RealVal(1) / d
                    return z3.Product(*(free + [self.sum_poly(core_, y, L, reps, depth)]))
        if k == z3.Z3_OP_ITE and not has(b.arg(0), y):
            c = b.arg(0)
            with self.ctx.assuming([S(c)]):
                b1 = self.sum_poly(simp(self.ctx, b.arg(1)), y, L, reps, depth)
            with self.ctx.assuming([S(z3.Not(c))]):
                b2 = self.sum_poly(simp(self.ctx, b.arg(2)), y, L, reps, depth)
            return z3.If(c, b1, b2)
        if self.is_sum(b):
            r = self.telescope(b, y, L, reps, depth)
            if r is not None:
                return r
        r = self.blocks(b, y, L, reps, depth)
        if r is not None:
            return r
        r = self.rotate(b, y, L, reps, depth)
        if r is not None:
            return r
        if z3.is_int_value(L) and L.as_long() <= 6 and small(b):
            return z3.Sum(*[simp(self.ctx, z3.substitute(b, (y, z3.IntVal(j)))) for j in range(L.as_long())])
        return self.rep(b, y, L, reps)

    def telescope(self, b, y, L, reps, depth):
        """windows [lo(y), hi(y)) with hi(y) == lo(y+1): one window"""
        lo, hi = b.arg(0), b.arg(1)
        for i in range(2, b.num_args()):
            if has(b.arg(i), y):
                return None
        if not self.ctx.entails_raw(hi == z3.substitute(lo, (y, y + 1))):
            return None
        if not self.ctx.entails_raw(lo <= hi):
            return None
        args = [z3.simplify(z3.substitute(lo, (y, z3.IntVal(0)))), z3.simplify(z3.substitute(lo, (y, L)))]
        args += [b.arg(i) for i in range(2, b.num_args())]
        return self.norm_app(b.decl()(*args), reps, depth + 1)

    def blocks(self, b, y, L, reps, depth):
        """body depends on y only through y div c, L = c*M"""
        divs = [t for t in apps_of(b, is_div) if t.arg(0).eq(y) and z3.is_int_value(t.arg(1))]
        if len({d.arg(1).as_long() for d in divs}) != 1:
            return None
        c = divs[0].arg(1).as_long()
        z = z3.Int(self.ctx.fresh_name('z'))
        b2 = z3.substitute(b, (divs[0], z))
        M = z3.simplify(simp(self.ctx, L / c))
        if not self.ctx.entails_raw(L == c * M):
            return None
        if has(b2, y):
            # sum over blocks of the sums over each block
            if z3.is_int_value(M) and M.as_long() <= 1:
                return None
            w = z3.Int(self.ctx.fresh_name('w'))
            with self.ctx.assuming([S(z >= 0), S(z < M)]):
                with self.ctx.assuming([S(w >= 0), S(w < c)]):
                    b3 = simp(self.ctx, z3.substitute(b, (y, c * z + w)))
                    inner = self.sum_poly(b3, w, z3.IntVal(c), reps, depth + 1)
                inner = simp(self.ctx, inner)
                return self.sum_poly(inner, z, M, reps, depth + 1)
        with self.ctx.assuming([S(z >= 0), S(z < M)]):
            return z3.RealVal(c) * self.sum_poly(b2, z, M, reps, depth)

    def rotate(self, b, y, L, reps, depth):
        """body depends on y only through (y + c) mod L"""
        mods = [t for t in apps_of(b, is_mod) if has(t, y)]
        for m in mods:
            if not self.ctx.entails_raw(m.arg(1) == L):
                continue
            parts, const = linear_parts(z3.simplify(m.arg(0)))
            e = parts.get(y.get_id())
            if e is None or e[1] != 1 or any(has(a, y) for k, (a, _) in parts.items() if k != y.get_id()):
                continue
            z = z3.Int(self.ctx.fresh_name('z'))
            b2 = z3.substitute(b, (m, z))
            if has(b2, y):
                continue
            with self.ctx.assuming([S(z >= 0), S(z < L)]):
                return self.sum_poly(simp(self.ctx, b2), z, L, reps, depth)
        return None

    def rep(self, b, y, L, reps):
        """representative of an irreducible sum, merging extensionally equal ones"""
        g, b = split_const(b)
        if g != 1:
            r = self.rep1(z3.simplify(b), y, L, reps)
            return z3.RealVal(str(g)) * r
        return self.rep1(b, y, L, reps)

    def rep1(self, b, y, L, reps):
        app = self.make(b, y, z3.IntVal(0), L)
        for a in reps['list']:
            if a.eq(app):
                return a
        for a in reps['list']:
            L2 = a.arg(1)
            if not self.ctx.entails_raw(L2 == L):
                continue
            with self.ctx.assuming([S(y >= 0), S(y < L)]):
                b2 = simp(self.ctx, self.body_at(a, y))
                if b2.eq(b) or self.ctx.entails_raw(b2 == b, timeout=3000, deep=True):
                    return a
        reps['list'].append(app)
        reps['memo'][app.get_id()] = (app, app)
        return app

    # -- facts about irreducible sums
    def apps(self, ts):
        seen, out, st = set(), [], list(ts)
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if self.is_sum(x):
                out.append(x)
            st.extend(x.children())
        return out

    def facts(self, app):
        """sign and size of a sum from pointwise bounds of its terms (monotonicity
        of finite sums, lemma `sum-mono`), valid under the current facts"""
        ctx = self.ctx
        if ctx.sum_depth > 3 or not ctx.sum_signs:
            return []
        key = (app.get_id(), len(ctx.facts), ctx.facts[-1].get_id() if ctx.facts else 0, ctx.sum_depth)
        e = ctx._sumfacts.get(key)
        if e is not None and e[0].eq(app):
            return e[1]
        ctx.sum_depth += 1
        try:
            out = self._facts(app)
        finally:
            ctx.sum_depth -= 1
        ctx._sumfacts[key] = (app, out)
        return out

    def _facts(self, app):
        ctx = self.ctx
        y = z3.Int(ctx.fresh_name('y'))
        lo, hi = app.arg(0), app.arg(1)
        L = z3.simplify(hi - lo)
        out = []
        nn = False
        if ctx.sum_signs == 'square':
            b = self.body_at(app, y)
            return [app >= 0] if is_square(b) else []
        with ctx.assuming([S(y >= 0), S(y < L)]):
            b = simp(ctx, self.body_at(app, y))
            nn = nonneg(ctx, b)
            if nn:
                out.append(app >= 0)
            if nonneg(ctx, z3.simplify(-b)):
                out.append(app <= 0)
            if L is not None and ctx.entails_raw(L >= 0):
                for u in ctx.sum_bounds:
                    if not has(b, y) and z3.is_real(b):
                        pass
                    if ctx.entails_raw(b <= u, timeout=3000, deep=True):
                        out.append(app <= u * z3.ToReal(L))
                    if ctx.entails_raw(b >= u, timeout=3000, deep=True):
                        out.append(app >= u * z3.ToReal(L))
        if nn:
            for w in ctx.sum_witness:
                for p in w(app):
                    if ctx.entails_raw(z3.And(lo <= p, p < hi), timeout=3000, deep=True):
                        # one term is at most the sum of non-negative terms
                        out.append(app >= simp(ctx, self.body_x(app, p)))
        return out


def small(b, limit=60):
    """few enough nodes (as a tree) to be written out term by term"""
    n, st = 0, [b]
    while st:
        x = st.pop()
        n += 1
        if n > limit:
            return False
        st.extend(x.children())
    return True


def split_const(b):
    """(g, b') with b = g * b', g a positive rational: the numeric content of a real term"""
    from fractions import Fraction
    one = Fraction(1)
    if z3.is_rational_value(b):
        v = Fraction(b.numerator_as_long(), b.denominator_as_long())
        return (one, b) if v == 0 else (abs(v), z3.RealVal(1 if v > 0 else -1))
    if not z3.is_app(b) or not z3.is_real(b):
        return one, b
    k = b.decl().kind()
    if k == z3.Z3_OP_MUL:
        g, out = one, []
        for c in flat_mul(b):
            gc, cc = split_const(c)
            g *= gc
            out.append(cc)
        return g, (z3.Product(*out) if g != 1 else b)
    if k == z3.Z3_OP_DIV:
        g1, n = split_const(b.arg(0))
        g2, d = split_const(b.arg(1))
        return (g1 / g2, n / d) if (g1 != 1 or g2 != 1) else (one, b)
    if k == z3.Z3_OP_UMINUS:
        g, c = split_const(b.arg(0))
        return g, -c
    if k == z3.Z3_OP_ADD:
        ps = [split_const(c) for c in b.children()]
        g = ps[0][0]
        for q, _ in ps[1:]:
            g = Fraction(math.gcd(g.numerator * q.denominator, q.numerator * g.denominator), g.denominator * q.denominator)
        if g == 1:
            return one, b
        return g, z3.Sum(*[c if q == g else z3.RealVal(str(q / g)) * c for q, c in ps])
    return one, b


def nonneg(ctx, b, depth=0):
    """facts |- b >= 0, by structure with solver queries at the leaves"""
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        return b.numerator_as_long() >= 0
    k = b.decl().kind() if z3.is_app(b) else None
    if depth > 12:
        return False
    if k == z3.Z3_OP_ITE:
        c = b.arg(0)
        ok = True
        for cc, t in ((c, b.arg(1)), (z3.Not(c), b.arg(2))):
            if not ok:
                break
            if z3.is_rational_value(t) and t.numerator_as_long() >= 0:
                continue
            with ctx.assuming([S(cc)]):
                ok = nonneg(ctx, t, depth + 1) or ctx.entails_raw(z3.BoolVal(False), deep=True)
        return ok
    if k == z3.Z3_OP_MUL:
        ch = flat_mul(b)
        neg = 0
        rest = []
        for c in ch:
            if nonneg(ctx, c, depth + 1):
                continue
            if nonneg(ctx, z3.simplify(-c), depth + 1):
                neg += 1
            else:
                rest.append(c)
        if not rest:
            return neg % 2 == 0 if neg else True
        return False
    if k == z3.Z3_OP_DIV:
        n, d = b.children()
        return pos(ctx, d) and nonneg(ctx, n, depth + 1)
    if k == z3.Z3_OP_ADD:
        ch = b.children()
        # clear one positive denominator
        for c in ch:
            fs = flat_mul(c) if c.decl().kind() == z3.Z3_OP_MUL else [c]
            dv = [f for f in fs if f.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(f)]
            if len(dv) == 1:
                if not pos(ctx, dv[0].arg(1)):
                    break
                others = [f for f in fs if not f.eq(dv[0])]
                t = z3.Product(*(others + [dv[0].arg(0)])) if others else dv[0].arg(0)
                r = z3.Sum(*[x for x in ch if not x.eq(c)])
                return nonneg(ctx, z3.simplify(t + r * dv[0].arg(1)), depth + 1)
        its = [c for c in ch if c.decl().kind() == z3.Z3_OP_ITE]
        if its:
            i = its[0]
            r = z3.Sum(*[x for x in ch if not x.eq(i)])
            return nonneg(ctx, z3.If(i.arg(0), i.arg(1) + r, i.arg(2) + r), depth + 1)
        if ctx.entails_raw(b >= 0, timeout=3000, deep=True):
            return True
        return all(nonneg(ctx, c, depth + 1) for c in ch)
    return ctx.entails_raw(b >= 0, timeout=3000, deep=True)


def pos(ctx, d):
    return ctx.entails_raw(d > 0, timeout=3000, deep=True)


def flat_mul(b):
    out = []
    for c in b.children():
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
            out.extend(flat_mul(c))
        else:
            out.append(c)
    return out
