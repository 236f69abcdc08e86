"""Solar geometry of a day: solar_geom() under loop invariants for its two loops (days, hour angles)."""
import ast
import z3
from .common import *
from pyvc.core import vc, Unsupported, PathAbort, is_num, floor_, ceil_, symbols
from pyvc.arrays import Arr
from pyvc.interp import Poison, assigned_names, BreakEx, ContinueEx, ReturnEx

ASSUMPTIONS = ['sin, cos and arccos: bounds, sin^2+cos^2=1, cos(arccos x)=x, arccos in [0, pi], cos even, positive inside (-pi/2, pi/2), '
               'decreasing on [0, pi] and changing no faster than its argument; powers by axioms',
               'finite sums: changing one entry changes the sum by the difference, dividing every entry divides the sum (lemmas in lean/Sums.lean)',
               'real arithmetic: the hour angles of a day fall on distinct 30 s steps, which rounding could upset at most within 1e-12 of a step boundary']
SPR, RPD, DT = F('13750.9871'), F('0.01745329'), 30
DH = F(DT) / SPR
NOON = 43200
OPTAM = [F(x) for x in '2.90 3.05 3.21 3.39 3.69 3.82 4.07 4.37 4.72 5.12 5.60 6.18 6.88 7.77 8.90 10.39 12.44 15.36 19.79 26.96 30.00'.split()]


def cos(x):
    return strip(uf('cos', x))


def sin(x):
    return strip(uf('sin', x))


class Day:
    """the geometry of one day by the published equations"""
    def __init__(self, h, i, elev, lat, lr):
        self.h, self.i = h, i
        c = h.c
        p = core.pi()
        la = minimum(maximum(mul(lat, RPD), mul(F(-1, 2), p)), mul(F(1, 2), p))
        decl = mul(F('-0.4092797'), cos(mul(add(i, F('11.25')), F('0.017214'))))
        for x in (la, decl):
            t = RT(x)
            c.axiom(z3.Implies(z3.And(2 * t < core.PI, -2 * t < core.PI), RT(cos(x)) > 0))
        self.C, self.D = mul(cos(la), cos(decl)), mul(sin(la), sin(decl))
        h.lemma('the sun moves around the pole', land(cmp('>', cos(la), 0), cmp('>', cos(decl), 0)))
        h.lemma('the hour angle matters at every latitude', land(cmp('>', self.C, 0), cmp('<=', self.C, 1)))
        r = div(mul(-1, self.D), self.C)
        coshss = minimum(maximum(strip(r), -1), 1)
        h.lemma('an angle', land(cmp('>=', coshss, -1), cmp('<=', coshss, 1)))
        self.hss = strip(uf('arccos', coshss))
        h.lemma('sunset hour angle', conj([cmp('>=', self.hss, 0), cmp('<=', self.hss, p), cmp('==', cos(self.hss), coshss)]))
        h.lemma('no sunset hour angle without a sunrise', implies(cmp('>', self.hss, 0), cmp('>=', self.D, mul(-1, mul(coshss, self.C)))))
        self.coshss = coshss
        self.top = mul(add(F(1368), mul(F('45.5'), sin(add(div(mul(mul(2, p), i), F('365.25')), F('1.7'))))), DT)
        h.lemma('radiation at the top of the atmosphere', cmp('>', self.top, 0))
        t1 = sub(1, div(mul(lr, elev), F('288.15')))
        self.trans = strip(power(F('.87'), strip(power(t1, div(F('9.80665'), mul(lr, F('8.3143') / F('0.0289644')))))))
        h.lemma('transmissivity', land(cmp('>', self.trans, 0), cmp('<=', self.trans, 1)))
        self.n = ceil_(div(mul(2, self.hss), DH))
        self.derive()

    def opaque(self):
        """the same day with its quantities replaced by constants of which only the lemmas are known"""
        c, d = self.h.c, Day.__new__(Day)
        d.h, d.i = self.h, self.i
        d.C, d.D, d.hss, d.top, d.trans, d.coshss = [c.real(x) for x in ('cosegeom', 'sinegeom', 'sunset', 'beam', 'transmissivity', 'cos_sunset')]
        d.n = c.int('steps')
        d.derive()
        facts = [land(cmp('>', d.C, 0), cmp('<=', d.C, 1)), land(cmp('>=', d.coshss, -1), cmp('<=', d.coshss, 1)),
                 conj([cmp('>=', d.hss, 0), cmp('<=', d.hss, core.pi()), cmp('==', cos(d.hss), d.coshss)]),
                 implies(cmp('>', d.hss, 0), cmp('>=', d.D, mul(-1, mul(d.coshss, d.C)))), cmp('>', d.top, 0),
                 land(cmp('>', d.trans, 0), cmp('<=', d.trans, 1)), cmp('==', d.n, ceil_(div(mul(2, d.hss), DH)))]
        return d, facts

    def derive(self):
        self.a = sub(F(1440), mul(self.hss, SPR / DT))      # where the first hour angle falls
        self.c0 = maximum(mul(self.top, self.height(mul(-1, self.hss))), 0)

    def angle(self, k):
        return add(mul(-1, self.hss), mul(toreal(k), DH))

    def height(self, x):
        """sine of the solar elevation"""
        return add(mul(self.C, cos(x)), self.D)

    def pos(self, k):
        return minimum(maximum(floor_(add(self.a, toreal(k))), 0), 2879)

    def evenly(self, x):
        """cos(x) against the sunset"""
        c, p = self.h.c, core.PI
        t, s = RT(x), RT(self.hss)
        cx = RT(cos(x))
        c.axiom(z3.Implies(z3.And(t > -s, t < s, s <= p), cx > RT(cos(self.hss))))
        c.axiom(z3.Implies(z3.Or(t == s, t == -s), cx == RT(cos(self.hss))))

    def slowly(self, x, y):
        """cos changes no faster than its argument"""
        tx, ty, d = RT(x), RT(y), RT(sub(cos(x), cos(y)))
        self.h.c.axiom(z3.Implies(tx >= ty, z3.And(d <= tx - ty, -d <= tx - ty)))
        self.h.c.axiom(z3.Implies(tx <= ty, z3.And(d <= ty - tx, -d <= ty - tx)))

    def flat(self, k):
        """radiation on the flat surface at hour angle k"""
        return mul(self.top, self.height(self.angle(k)))

    def mass(self, cza):
        am = div(1, add(cza, F('0.0000001')))
        deg = minimum(maximum(sub(toint(div(strip(uf('arccos', cza)), RPD)), 69), 0), 20)
        row = OPTAM[-1]
        for q in range(19, -1, -1):
            row = ite(cmp('==', deg, q), OPTAM[q], row)
        return ite(cmp('>', strip(am), F('2.9')), row, strip(am))


class Geometry:
    """invariants of the loops of solar_geom"""
    def __init__(self, h, step, elev, lat, lr):
        self.h, self.step, self.args = h, step, (elev, lat, lr)
        self.day = None
        self.state = None
        h.it.loop_rule = self.rule

    def rule(self, s, env, seq):
        if self.day is None:
            if core.is_conc(seq.n) and seq.n == 365:
                return self.days
        elif self.state is None:
            return self.hours
        return None

    def arrays(self, env):
        out = []
        for v in env.vars.values():
            if isinstance(v, Arr) and v.ident and v.buf not in out:
                out.append(v.buf)
        return out

    # ------------------------------------------------------------------ days
    def days(self, it, s, env, seq):
        """an arbitrary day; every day touches its own row of the result only"""
        h, c = self.h, vc()
        i = h.idx(365, 'day')
        self.i = i
        bufs = [b for b in self.arrays(env) if core.is_conc(b.shape[0]) and b.shape[0] == 366]
        names = assigned_names(s.body) | assigned_names([s])
        for nm in names:
            env.vars[nm] = Poison('left over from the day before', carried=nm)
        for b in bufs:
            old, other = b.snapshot(), interp.c_fresh_array(b.shape, 'other_days', b.dtype)
            b.fn = lambda idx, old=old, other=other: ite(cmp('==', idx[0], i), old(idx), other.at(*idx))
            b.cache = {}
        before = [b.snapshot() for b in bufs]
        self.day = Day(h, i, *self.args)
        it.assign(s.target, seq.elem(i), env)
        try:
            it.block(s.body, env)
        except ContinueEx:
            pass
        except (BreakEx, ReturnEx):
            raise Unsupported('days left early')
        d = h.idx(366, 'another_day')
        if self.state is None:
            raise Unsupported('the loop over hour angles')
        for b, old in zip(bufs, before):
            x = (d,) + tuple(h.idx(m, 'j') for m in b.shape[1:])
            with c.assuming([lnot(cmp('==', d, i))]):
                same_ = same(b.read(x), old(x))
                h.prove('a day leaves the other days alone', same_, kind='invariant')
        for nm in names:
            env.vars[nm] = Poison('left over from the last day')

    # ----------------------------------------------------------------- hours
    def hours(self, it, s, env, seq):
        h, c, day = self.h, vc(), self.day
        no = lambda why: Unsupported('supplied loop invariant does not fit: ' + why)
        n = seq.n
        h.prove('one step each 30 s of daylight', cmp('==', n, day.n))
        names = assigned_names(s.body) | assigned_names([s])
        pre = dict(env.vars)
        accs = [nm for nm in sorted(names) if isinstance(pre.get(nm), S) or is_num(pre.get(nm))]
        bufs = self.arrays(env)
        # cut: inside the loop the quantities of the day are constants known by the lemmas above
        cut, lemmas = day.opaque()
        k0 = c.int('k')
        el = seq.elem(k0)

        def generic(x):
            if isinstance(x, tuple):
                fs = [generic(y) for y in x]
                return lambda k: tuple(f(k) for f in fs)
            if isinstance(x, S) and x.is_int and x.t.eq(k0.t):
                return lambda k: k
            if isinstance(x, S) and c.entails(cmp('==', x, day.angle(k0))):
                return cut.angle
            raise no('what the loop runs over')
        element = generic(el)
        used = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        known = {}
        for nm, v in pre.items():
            if nm in used and nm not in names and isinstance(v, S) and not v.is_bool:
                for q in ('C', 'D', 'hss', 'top', 'trans', 'coshss'):
                    if c.entails(cmp('==', v, getattr(day, q))):
                        known[nm] = getattr(cut, q)
                        break

        def enter():
            c.facts[:] = [BT(f) for f in lemmas]
            c.axioms, c._ax_ids, c.inst, c.pow_inst, c._scan_seen, c._ecache = [], {}, {}, [], {}, {}
            core.pi()
            env.vars.clear()
            env.vars.update(pre)
            env.vars.update(known)

        def body(k):
            for nm in names:
                if nm not in accs:
                    env.vars[nm] = Poison('loop-carried ' + nm, carried=nm)
            it.assign(s.target, element(k), env)
            try:
                it.block(s.body, env)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx):
                raise no('left early')
        # which variables and which array does the loop fill?
        roles, filled = {}, []
        kept = list(c.facts), c.axioms, c._ax_ids, c.inst, c.pow_inst, c._scan_seen, c._ecache

        def dry():
            saved = [(b, b.fn, b.cache) for b in bufs]
            nob = len(c.obligs)
            enter()
            k = c.int('k')
            c.assume(k >= 0)
            c.assume(cmp('<', k, cut.n))
            env.vars.update({nm: c.real('acc') for nm in accs})
            try:
                body(k)
                for nm in accs:
                    v = env.vars[nm]
                    if not (isinstance(v, S) or is_num(v)):
                        raise no(nm)
                    roles.setdefault(nm, set()).update(set(symbols(RT(v))))
                for b, f, _ in saved:
                    if b.fn is not f and b not in filled:
                        filled.append(b)
            finally:
                del c.obligs[nob:]
                for b, f, ca in saved:
                    b.fn, b.cache = f, ca
        c.explore(dry)
        c.facts[:] = kept[0]
        c.axioms, c._ax_ids, c.inst, c.pow_inst, c._scan_seen, c._ecache = kept[1:]
        tr = [nm for nm in accs if 'pow' in roles.get(nm, ())]
        fl = [nm for nm in accs if nm not in tr]
        if len(tr) != 1 or len(fl) != 1 or len(filled) != 1:
            raise no('sums %s, arrays %d' % (accs, len(filled)))
        tr, fl, buf = tr[0], fl[0], filled[0]
        if len(buf.shape) == 2:
            at = lambda j: buf.read((self.i, j))
            put = lambda fn: buf.write(lambda idx: (cmp('==', idx[0], self.i), lambda: fn(idx[1])))
        elif len(buf.shape) == 1:
            at = lambda j: buf.read((j,))
            put = lambda fn: buf.write(lambda idx: (True, lambda: fn(idx[0])))
        else:
            raise no('array')
        h.prove('2880 steps', cmp('==', buf.shape[-1], 2880))
        # before the first hour angle
        env.vars.clear()
        env.vars.update(pre)
        j = h.idx(2880, 'j')
        h.prove('nothing before the first hour angle', conj([eq(pre[tr], 0), eq(pre[fl], 0), eq(at(j), 0)]), kind='invariant')
        step = self.step
        if step:
            enter()
            c.assume(rng(self.i, 365))
            self.cut = day = cut
        n = day.n
        k = c.int('k') if step else n
        Fs, G, R = c.real('flat'), c.real('trans'), c.real('row_sum')
        e = z3.Function(c.fresh_name('entry'), z3.IntSort(), z3.RealSort())
        w = z3.Function(c.fresh_name('written_by'), z3.IntSort(), z3.IntSort())
        E_ = lambda x: S(e(T(x)))
        W = lambda x: S(w(T(x)))
        if step:
            c.assume(k >= 0)
            c.assume(cmp('<', k, n))
        else:
            h.lemma('the number of hour angles is not negative', cmp('>=', n, 0))
        for nm, f in self.invariant(day, k, Fs, G, R):
            c.assume(f)
        c.on_app[e.name()] = lambda args: [BT(implies(rng(S(args[0]), 2880), conj([f for _, f in self.entry(day, k, S(args[0]), Fs, E_(S(args[0])), W(S(args[0])))])))]
        put(E_)
        env.vars[tr], env.vars[fl] = G, Fs
        if not step:
            for nm in names:
                if nm not in accs:
                    env.vars[nm] = Poison('left over from the last hour angle')
            self.state = (Fs, G, R, E_, W)
            return
        # one hour angle
        self.facts(day, k)
        c.cover('an hour angle')
        p = day.pos(k)
        h.lemma('a step of the day', land(rng(p, 2880), cmp('==', p, maximum(floor_(add(day.a, toreal(k))), 0))))
        h.lemma('the sun is up', conj([cmp('>=', day.height(day.angle(k)), 0), implies(cmp('>', k, 0), cmp('>', day.height(day.angle(k)), 0))]))
        h.lemma('lowest at sunrise', cmp('>=', day.height(day.angle(k)), day.height(mul(-1, day.hss))))
        v = day.flat(k)
        h.lemma('radiation on the ground', conj([cmp('>=', v, 0), implies(cmp('>', k, 0), cmp('>', v, 0)), cmp('>=', v, day.c0)]))
        body(k)
        F2, G2 = env.vars[fl], env.vars[tr]
        h.prove('potential radiation of the step', eq(F2, add(Fs, v)), kind='invariant')
        cza = day.height(day.angle(k))
        wt = strip(power(day.trans, day.mass(cza)))
        h.lemma('transmittance of the step', land(cmp('>=', wt, 0), cmp('<=', wt, 1)))
        h.prove('beam radiation of the step', eq(G2, add(G, mul(wt, v))), kind='invariant')
        j = h.idx(2880, 'j')
        h.prove('one step of the day is set', implies(lnot(cmp('==', j, p)), eq(at(j), E_(j))), kind='invariant')
        new = at(p)
        h.prove('the radiation of the step', land(finite(new), cmp('==', strip(new), v)), kind='invariant')
        vv, ww = c.real('radiation_of_the_step'), c.real('transmittance_of_the_step')
        c.assume(cmp('==', vv, v))
        c.assume(land(cmp('>=', ww, 0), cmp('<=', ww, 1)))      # all that is used of it
        F2, G2, new = add(Fs, vv), add(G, mul(ww, vv)), vv
        k1 = add(k, 1)
        R2 = add(R, sub(new, E_(p)))
        for nm, f in self.invariant(day, k1, F2, G2, R2):
            h.prove('kept: ' + nm, f, kind='invariant')
        for x, val, wit in ((p, new, k), (j, E_(j), W(j))):
            with c.assuming([] if x is p else [lnot(cmp('==', j, p))]):
                for nm, f in self.entry(day, k1, x, F2, val, wit):
                    h.prove('kept: ' + nm, f, kind='invariant')
        raise PathAbort()

    def facts(self, day, k):
        for x in (day.angle(k), mul(-1, day.hss)):
            day.evenly(x)

    def invariant(self, day, k, Fs, G, R):
        gap = sub(Fs, R)
        return [('beam radiation is part of the potential', land(cmp('>=', G, 0), cmp('<=', G, Fs))),
                ('nothing at first', implies(cmp('==', k, 0), cmp('==', Fs, 0))),
                ('sun after sunrise', implies(cmp('>=', k, 2), cmp('>', Fs, 0))),
                ('the row holds the sum, but for a step hit twice', land(cmp('>=', gap, 0), cmp('<=', gap, day.c0))),
                ('no step is hit twice', implies(lor(cmp('>=', day.a, 0), cmp('<=', k, 1)), cmp('==', gap, 0))),
                ('no step is darker than sunrise', cmp('>=', Fs, mul(toreal(k), day.c0)))]

    def entry(self, day, k, j, Fs, x, w):
        return [('entries are part of the sum', land(cmp('>=', x, 0), cmp('<=', x, Fs))),
                ('steps to come are dark', implies(cmp('>=', j, maximum(floor_(add(day.a, toreal(k))), ite(cmp('>=', k, 1), 1, 0))), cmp('==', x, 0))),
                ('the first step', implies(cmp('<=', k, 1), cmp('<=', x, day.c0))),
                ('light where the sun is up', implies(lnot(cmp('==', x, 0)), conj([cmp('>=', w, 0), cmp('<', w, k), cmp('==', day.pos(w), j),
                                                                                  cmp('==', x, day.flat(w)), cmp('>', day.height(day.angle(w)), 0)])))]


def inputs(h):
    c = h.c
    elev, lat, lr = c.real('elev'), c.real('lat'), c.real('lapse_rate')
    c.assume((lat >= -90) & (lat <= 90))
    c.assume(lr > 0)
    c.assume(cmp('<', mul(lr, elev), F('288.15')))
    return elev, lat, lr


def run(h, step):
    args = inputs(h)
    g = Geometry(h, step, *args)
    r = h.call(h.fn('physics', 'solar_geom'), *args)
    if g.state is None:
        raise Unsupported('the loop over days')
    return g, r


def hours(h):
    """one hour angle keeps the invariant of the day"""
    run(h, True)


def result(h):
    """after the last hour angle"""
    c = h.c
    g, r = run(h, False)
    h.prove('four arrays', BT(isinstance(r, (tuple, list)) and len(r) == 4 and all(isinstance(a, Arr) for a in r)))
    fr, dl, pot, tt = r
    day, i = g.day, g.i
    Fs, G, R, E_, W = g.state
    h.prove('shapes', conj([BT(fr.ndim == 2 and all(a.ndim == 1 for a in (dl, pot, tt)))] + [cmp('==', a.shape[0], 366) for a in r] + [cmp('==', fr.shape[1], 2880)]))
    c.cover('a day')
    j = h.idx(2880, 'step')
    L = strip(dl.at(i))
    h.prove('daylength is twice the sunset hour angle', eq(dl.at(i), minimum(mul(mul(2, day.hss), SPR), 86400)))
    h.prove('daylength within the day', conj([finite(dl.at(i)), cmp('>=', L, 0), cmp('<=', L, 86400)]))
    x, fx = fr.at(i, j), strip(fr.at(i, j))
    lit = cmp('>', Fs, 0)
    h.lemma('light comes with daylength', implies(lit, cmp('>', day.hss, 0)))
    h.prove('more than one step of daylength is lit', implies(cmp('>', L, DT), lit))
    h.prove('fractions of the sum', land(finite(x), implies(lit, cmp('==', mul(fx, Fs), E_(j)))))
    h.prove('none on a day without sun', implies(lnot(lit), eq(x, 0)))
    h.prove('fractions are not negative', land(cmp('>=', fx, 0), cmp('<=', fx, 1)))
    h.prove('fractions sum to one, but for the step the polar day hits twice',
            implies(lit, conj([cmp('<=', R, Fs), implies(cmp('>=', day.a, 0), cmp('==', R, Fs)), cmp('>=', mul(2881, R), mul(2880, Fs))])))
    hj = div(sub(mul(toreal(j), DT), NOON), SPR)
    wj = day.angle(W(j))
    day.slowly(hj, wj)
    up = conj([cmp('<=', sub(hj, wj), DH), cmp('<=', sub(wj, hj), DH)])
    h.prove('a lit step is a step of the daylight', implies(cmp('>', fx, 0), land(up, cmp('>', day.height(wj), 0))))
    h.prove('dark below the horizon', implies(cmp('>', fx, 0), cmp('>', day.height(hj), -DH)))
    h.prove('in proportion to the elevation', implies(cmp('>', fx, 0), cmp('==', mul(fx, Fs), mul(day.top, day.height(wj)))))
    P, t = pot.at(i), tt.at(i)
    h.prove('potential radiation averaged over the daylength', conj([finite(P), implies(lit, cmp('==', mul(strip(P), L), Fs)), implies(lnot(lit), cmp('==', strip(P), 0)), cmp('>=', strip(P), 0)]))
    h.prove('transmittance averaged over the radiation', conj([finite(t), implies(lit, cmp('==', mul(strip(t), Fs), G)), implies(lnot(lit), cmp('==', strip(t), 0))]))
    h.prove('transmittance between zero and one', land(cmp('>=', strip(t), 0), cmp('<=', strip(t), 1)))


def repeats(h):
    g, (fr, dl, pot, tt) = run(h, False)
    j = h.idx(2880, 'step')
    h.c.cover('any day')
    h.prove('day 366 repeats day 365', conj([same(a.at(365), a.at(364)) for a in (dl, pot, tt)] + [same(fr.at(365, j), fr.at(364, j))]))


def units(tier):
    return [('C08.hours', hours), ('C08.result', result), ('C08.day366', repeats)]
