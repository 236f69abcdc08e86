"""Discharging obligations: simplification, sum lemmas, z3, nlsat on the purified
problem, cvc5.  `refuted` means a counter-model of the (instantiated) negation."""
import time
import z3
from . import core
from .core import S, BT, symbols
from .sums import simp, nonneg


def split(g, hyps=()):
    """list of (hypotheses, atomic goal)"""
    g = z3.simplify(g) if z3.is_true(g) or z3.is_false(g) else g
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split(c, hyps)
        return out
    if z3.is_implies(g):
        return split(g.arg(1), hyps + (g.arg(0),))
    if z3.is_or(g):
        ch = g.children()
        # (not a) or b  ->  a => b, for the last disjunct
        pos = [c for c in ch if not z3.is_not(c)]
        neg = [c for c in ch if z3.is_not(c)]
        if len(pos) == 1 and neg:
            return split(pos[0], hyps + tuple(n.arg(0) for n in neg))
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        out = []
        for c in g.arg(0).children():
            out += split(z3.Not(c), hyps)
        return out
    return [(hyps, g)]


def discharge(ctx, o, goal, timeout):
    goal = BT(goal)
    backs = []
    for hyps, g in split(goal):
        with ctx.assuming([S(h) for h in hyps]):
            st, be, det, model = prove1(ctx, g, timeout, hyps)
        backs.append(be)
        if st != 'proved':
            o.status, o.backend, o.detail, o.model = st, be, det, model
            return
    o.status = 'proved'
    order = ['simplify', 'sums', 'z3', 'z3-nlsat', 'cvc5']
    o.backend = max(backs, key=lambda b: order.index(b) if b in order else 9) if backs else 'simplify'


def prove1(ctx, g, timeout, hyps=()):
    g0 = g
    g = simp(ctx, g)
    if z3.is_true(g):
        return 'proved', 'simplify', '', None
    be = 'z3'
    cmpk = g.decl().kind() if z3.is_app(g) else None
    if cmpk in (z3.Z3_OP_LE, z3.Z3_OP_GE) and z3.is_real(g.arg(0)) and has_sums(ctx, g):
        d = g.arg(1) - g.arg(0) if cmpk == z3.Z3_OP_LE else g.arg(0) - g.arg(1)
        if nonneg(ctx, d):
            return 'proved', 'sums', '', None
    reps = {'memo': {}, 'list': []}
    extra = []
    if has_sums(ctx, g) or any(has_sums(ctx, f) for f in ctx.facts):
        facts_n = []
        for f in core.relevant(ctx.axioms + ctx.facts, symbols(g)):
            if has_sums(ctx, f):
                facts_n.append(ctx.sums.normalise(simp(ctx, f), reps))
        gn = simp(ctx, ctx.sums.normalise(g, reps))
        if z3.is_true(gn):
            return 'proved', 'sums', '', None
        g = gn
        extra = facts_n
        extra = extra + ctx.sum_extra([g] + facts_n)
    facts = ctx.all_facts(z3.And(g, *extra, *hyps) if extra or hyps else g) + extra
    neg = z3.Not(g)
    r, m, s = ctx.check(facts + [neg], 1000, want_model=True)
    if r == z3.unknown:
        if ctx.valid_abs(facts, g, 3000):
            return 'proved', be, '', None
        r, m, s = ctx.check(facts + [neg], min(timeout, 5000), want_model=True)
    if r == z3.unsat:
        return 'proved', be, '', None
    if r == z3.sat:
        return 'refuted', be, show(g), model_dict(m)
    # nonlinear: purified nlsat
    st = nlsat(ctx, facts + [neg], timeout)
    if st == 'unsat':
        return 'proved', 'z3-nlsat', '', None
    r, m, s = ctx.check(facts + [neg], timeout, want_model=True)
    if r == z3.unsat:
        return 'proved', be, '', None
    if r == z3.sat:
        return 'refuted', be, show(g), model_dict(m)
    st2 = cvc5(ctx, facts + [neg], timeout)
    if st2 == 'unsat':
        return 'proved', 'cvc5', '', None
    return 'unknown', be, show(g), None


def show(g):
    return str(g)[:1500]


def model_dict(m):
    d = {}
    for x in m.decls():
        if x.arity() == 0:
            d[x.name()] = str(m[x])
    return dict(list(d.items())[:60])


def has_sums(ctx, t):
    return any(n.startswith('SUM_') for n in symbols(t))


def purify(fs):
    """replace uninterpreted applications by constants, with functional consistency"""
    apps = {}
    order = []
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            apps[x.get_id()] = x
            order.append(x)
        st.extend(x.children())
    # innermost first
    order.sort(key=lambda a: depth(a))
    sub = []
    out_apps = []
    for i, a in enumerate(order):
        a2 = z3.substitute(a, sub) if sub else a
        c = z3.Const('PUR!%d' % i, a.sort())
        sub.append((a, c))
        out_apps.append((a.decl().name(), [z3.substitute(x, sub[:-1]) if len(sub) > 1 else x for x in a.children()], c))
    # substitute outermost first so nested ones disappear with their parents
    sub2 = list(reversed(sub))
    res = [sub_all(f, sub2) for f in fs]
    for i in range(len(out_apps)):
        for j in range(i):
            n1, a1, c1 = out_apps[i]
            n2, a2, c2 = out_apps[j]
            if n1 == n2 and len(a1) == len(a2):
                a1s = [sub_all(x, sub2) for x in a1]
                a2s = [sub_all(x, sub2) for x in a2]
                res.append(z3.Implies(z3.And(*[p == q for p, q in zip(a1s, a2s)]), c1 == c2))
    return res


_depth = {}


def depth(t):
    k = t.get_id()
    if k in _depth and _depth[k][0].eq(t):
        return _depth[k][1]
    d = 1 + max([depth(c) for c in t.children()] or [0])
    _depth[k] = (t, d)
    return d


def sub_all(f, sub):
    for a, c in sub:
        f = z3.substitute(f, (a, c))
    return f


def nlsat(ctx, fs, timeout):
    t0 = time.time()
    try:
        ps = purify(fs)
        g = z3.Goal()
        for p in ps:
            g.add(p)
        t = z3.TryFor(z3.Then('simplify', 'purify-arith', 'solve-eqs', 'elim-term-ite', 'solve-eqs', 'qfnra-nlsat'), int(timeout))
        s = t.solver()
        s.add(ps)
        s.set('timeout', int(timeout))
        r = s.check()
        return str(r)
    except z3.Z3Exception:
        return 'unknown'
    finally:
        ctx.solver_time += time.time() - t0
        ctx.queries += 1


def cvc5(ctx, fs, timeout):
    """second opinion through SMT-LIB"""
    import subprocess
    import tempfile
    import os
    t0 = time.time()
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--nl-ext-tplanes', p], capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)
        ctx.solver_time += time.time() - t0
        ctx.queries += 1
