"""Interpreter for a Python subset over symbolic values: the VC generator.

It executes the *current* source text of /repo (parsed on every run).  Anything
outside the subset raises Unsupported (undecided, never a verdict).
"""
import ast
import os
from fractions import Fraction
import z3
from . import core
from .core import (S, T, RT, BT, Unsupported, PyRaise, PathAbort, LoopCarried, vc, implies, is_conc, is_num,
                   add, sub, mul, div, cmp, land, lor, lnot, ite, conj, lift, isint)
from . import arrays
from .arrays import Arr, elementwise, last_writer

UNROLL = 48


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class VList(list):
    def __init__(self, *a):
        super().__init__(*a)
        self.depth = vc().loop_depth if vc() else 0

    def __hash__(self):
        raise PyRaise(TypeError, ('unhashable',))


class VDict(dict):
    kind = 'dict'

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.depth = vc().loop_depth if vc() else 0


class VSet(set):
    def __init__(self, *a):
        super().__init__(*a)
        self.depth = vc().loop_depth if vc() else 0


def check_mut(o):
    c = vc()
    if c is not None and c.loops and getattr(o, 'depth', 0) < c.loop_depth:
        raise LoopCarried('container modified in a loop with a symbolic number of iterations')


class Poison:
    def __init__(self, why, carried=None):
        self.why, self.carried = why, carried


class Opaque:
    """an arbitrary value about which nothing is known (parametric proofs)"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


class Range:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class SymSeq:
    """sequence with symbolic length; elem: index scalar -> value"""
    def __init__(self, n, elem, kind='list'):
        self.n, self.elem, self.kind = n, elem, kind
        self.multi = None       # sizes of the factors of a product: elem also takes a tuple of indices
        self.rule = None        # loop invariant supplied by a contract


class Func:
    def __init__(self, interp, node, env, mod, name, defaults=(), kwdefaults=None, cls=None):
        self.interp, self.node, self.env, self.mod, self.name = interp, node, env, mod, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls

    @property
    def qual(self):
        return '%s.%s' % (self.mod.name, self.name)


class Builtin:
    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name

    def __repr__(self):
        return '<model %s>' % self.name


class BoundMethod:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Cls:
    def __init__(self, name, ns, mod, bases=()):
        self.name, self.ns, self.mod, self.bases = name, ns, mod, bases

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.d = {}


class PropertyV:
    def __init__(self, fget):
        self.fget = fget


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassV:
    def __init__(self, f):
        self.f = f


class Module:
    def __init__(self, name, ns=None):
        self.name = name
        self.ns = ns if ns is not None else {}

    def __repr__(self):
        return '<module %s>' % self.name


class Env:
    def __init__(self, mod, parent=None, cls=None):
        self.mod, self.parent, self.vars = mod, parent, {}
        self.globals_decl, self.nonlocals = set(), set()
        self.locals_set = None

    def lookup(self, n):
        e = self
        if n in self.globals_decl:
            return self.mod.ns[n] if n in self.mod.ns else None
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        raise KeyError(n)


class ExcValue:
    """instance of an exception class in the interpreted program"""
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)


class Loop:
    def __init__(self, depth, k):
        self.depth, self.k = depth, k
        self.writes = {}     # buf -> list of condvals (this path)
        self.saved = {}
        self.reads = []

    def note_write(self, buf, condval):
        if buf not in self.saved:
            self.saved[buf] = (buf.fn, buf.cache)
        self.writes.setdefault(buf, []).append(condval)

    def note_read(self, arr):
        self.reads.append(arr)


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    v = V()
    for s in stmts:
        v.visit(s)
    return out


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


class Interp:
    def __init__(self, root, modeled=None):
        """modeled: name -> Module for everything that is not /repo code"""
        self.root = root
        self.modules = {}
        self.modeled = modeled or {}
        self.contracts = {}
        self.loop_rule = None   # loop invariants supplied by a contract
        self.call_depth = 0
        from . import models
        self.models = models
        self.builtins = models.builtins(self)

    # ------------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.modeled:
            m = self.modeled[name]
            if callable(m):
                m = m(self)
            self.modules[name] = m
            return m
        if name.split('.')[0] == 'metsim':
            p = os.path.join(self.root, *name.split('.'))
            path = p + '.py' if os.path.isfile(p + '.py') else os.path.join(p, '__init__.py')
            if os.path.isfile(path):
                m = Module(name)
                self.modules[name] = m
                m.path = path
                m.ns['__name__'] = name
                m.ns['__file__'] = path
                if path.endswith('__init__.py') and name == 'metsim':
                    m.ns['__version__'] = '0'
                    return m
                src = open(path, encoding='utf8').read()
                tree = ast.parse(src, path)
                env = Env(m)
                env.vars = m.ns
                for st in tree.body:
                    try:
                        self.exec(st, env)
                    except Unsupported as e:
                        for n in assigned_names([st]) | imported_names(st):
                            m.ns[n] = Poison('%s:%d: %s' % (name, st.lineno, e))
                return m
        m = self.models.library(self, name)
        if m is None:
            raise Unsupported('module %s' % name)
        self.modules[name] = m
        return m

    # ---------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        c = vc()
        if c is not None:
            c.where = '%s:%d' % (env.mod.name.split('.')[-1], s.lineno)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            v = self.eval(s.value, env)
            r = self.augment(op, old, v)
            self.assign(t, r, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k)
            v = self.eval(s.value, env)
            if isinstance(o, Arr):
                o.put(k, self.binop(op, old, v))
            else:
                self.setitem(o, k, self.augment(op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augment(op, old, self.eval(s.value, env)))
        else:
            raise Unsupported('augmented target')

    def augment(self, op, old, v):
        """in-place semantics for arrays and lists"""
        if isinstance(old, Arr):
            r = self.binop(op, old, v)
            if old.dtype == 'i' and isinstance(r, Arr) and r.dtype == 'f':
                raise PyRaise(TypeError, ('casting',))
            if len(r.shape) != len(old.shape):
                raise Unsupported('in-place broadcast')
            old.store(r)
            return old
        if isinstance(old, VList) and op == '+':
            check_mut(old)
            old.extend(self.iterate(v))
            return old
        h = getattr(old, 'vaug', None)
        if h is not None:
            return h(self, op, v)
        return self.binop(op, old, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_decl:
                env.mod.ns[t.id] = v
            elif t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                (e or env).vars[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                vs = list(self.iterate(v))
                i = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)][0]
                after = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, VList(vs[i:len(vs) - after]), env)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(x, y, env)
                return
            vs = list(self.iterate(v, expect=len(t.elts)))
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError, ('unpack',))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def x_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_Import(self, s, env):
        for a in s.names:
            try:
                m = self.load(a.name)
            except Unsupported as e:
                m = Poison(str(e))
            if a.asname:
                self.assign(ast.Name(a.asname, ast.Store()), m, env)
            else:
                top = a.name.split('.')[0]
                if '.' in a.name and not isinstance(m, Poison):
                    try:
                        t = self.load(top)
                        link = t
                        parts = a.name.split('.')
                        for i in range(1, len(parts)):
                            sm = self.load('.'.join(parts[:i + 1]))
                            link.ns.setdefault(parts[i], sm)
                            link = sm
                        m = t
                    except Unsupported as e:
                        m = Poison(str(e))
                self.assign(ast.Name(top, ast.Store()), m, env)

    def x_ImportFrom(self, s, env):
        for a in s.names:
            name = s.module or ''
            if s.level:
                base = env.mod.name.split('.')
                if not env.mod.path.endswith('__init__.py'):
                    base = base[:-1]
                base = base[:len(base) - (s.level - 1)] if s.level > 1 else base
                name = '.'.join(base + ([name] if name else []))
            try:
                m = self.load(name)
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif getattr(m, 'dynamic', None):
                    v = m.dynamic(a.name)
                else:
                    v = self.load(name + '.' + a.name)
            except Unsupported as e:
                v = Poison(str(e))
            self.assign(ast.Name(a.asname or a.name, ast.Store()), v, env)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, env)
        self.assign(ast.Name(s.name, ast.Store()), f, env)

    def make_func(self, s, env, name):
        a = s.args
        return Func(self, s, env, env.mod, name,
                    [self.eval(d, env) for d in a.defaults],
                    {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def decorate(self, d, f, env):
        t = ast.unparse(d)
        base = t.split('(')[0]
        if base in ('jit', 'njit', 'numba.jit', 'numba.njit'):
            vc().assumed.add('numba @jit preserves the meaning of the decorated Python function')
            return f
        if base == 'dask.delayed':
            vc().assumed.add('dask.delayed runs the decorated function with the given arguments')
            return f
        if base == 'property':
            return PropertyV(f)
        if base == 'staticmethod':
            return StaticV(f)
        if base == 'classmethod':
            return ClassV(f)
        if base in ('functools.lru_cache', 'lru_cache', 'functools.cache', 'cache', 'functools.wraps', 'wraps'):
            if 'cache' in base:
                raise Unsupported('decorator ' + base)
            return f
        dec = self.eval(d, env)
        return self.call(dec, [f], {})

    def x_ClassDef(self, s, env):
        ns = Env(env.mod, env)
        for st in s.body:
            try:
                self.exec(st, ns)
            except Unsupported as e:
                for n in assigned_names([st]):
                    ns.vars[n] = Poison(str(e))
        bases = []
        for b in s.bases:
            try:
                bases.append(self.eval(b, env))
            except Unsupported:
                pass
        c = Cls(s.name, ns.vars, env.mod, bases)
        for v in ns.vars.values():
            f = v.fget if isinstance(v, PropertyV) else v.f if isinstance(v, (StaticV, ClassV)) else v
            if isinstance(f, Func):
                f.cls = c
                f.name = s.name + '.' + f.name
                if f.env is ns:
                    f.env = env
        self.assign(ast.Name(s.name, ast.Store()), c, env)

    def x_Global(self, s, env):
        env.globals_decl.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                h = getattr(o, 'vdelitem', None)
                if h:
                    h(self, k)
                elif isinstance(o, (VDict, VList)):
                    check_mut(o)
                    if isinstance(o, VDict) and k not in o:
                        raise PyRaise(KeyError, (k,))
                    del o[k]
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def x_Assert(self, s, env):
        c = self.truth_term(self.eval(s.test, env))
        if c is True:
            return
        ctx = vc()
        if getattr(self, 'assert_is_guard', True):
            # a failing assertion is a rejection by exception
            if not ctx.branch(c if isinstance(c, S) else c):
                raise PyRaise(AssertionError, ())

    def x_Raise(self, s, env):
        if s.exc is None:
            raise env.lookup('__current_exc__') if False else Unsupported('re-raise')
        e = self.eval(s.exc, env)
        if isinstance(e, ExcValue):
            raise PyRaise(e.cls, e.args)
        if isinstance(e, type) and issubclass(e, BaseException):
            raise PyRaise(e, ())
        raise Unsupported('raise of %r' % (e,))

    def x_Try(self, s, env):
        c = vc()
        c.try_depth += 1
        try:
            try:
                self.block(s.body, env)
            finally:
                c.try_depth -= 1
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    ht = self.eval(h.type, env)
                    hts = ht if isinstance(ht, tuple) else (ht,)
                    ok = any(isinstance(x, type) and isinstance(e.exc, type) and issubclass(e.exc, x) for x in hts)
                if ok:
                    if h.name:
                        env.vars[h.name] = ExcValue(e.exc, e.eargs)
                    self.block(h.body, env)
                    break
            else:
                self.block(s.finalbody, env)
                raise
        else:
            self.block(s.orelse, env)
        self.block(s.finalbody, env)

    def x_With(self, s, env):
        ms = []
        for it in s.items:
            m = self.eval(it.context_expr, env)
            h = getattr(m, 'venter', None)
            if h is not None:
                v = h(self)
            elif isinstance(m, Inst):
                v = self.call(self.getattr(m, '__enter__'), [], {})
            else:
                raise Unsupported('with on %r' % type(m).__name__)
            ms.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.block(s.body, env)
        finally:
            for m in reversed(ms):
                h = getattr(m, 'vexit', None)
                if h is not None:
                    h(self)

    # ------------------------------------------------------------- loops
    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        seq = self.as_seq(it)
        if isinstance(seq, SymSeq):
            rule = seq.rule or self.supplied_rule(s, env) or (self.loop_rule and self.loop_rule(s, env, seq))
            if rule:
                return rule(self, s, env, seq)
            if is_conc(seq.n) and seq.n <= UNROLL:
                items = [seq.elem(i) for i in range(int(seq.n))]
            else:
                saved = dict(env.vars)
                try:
                    self.sym_for(s, seq, env)
                    if s.orelse:
                        self.block(s.orelse, env)
                    return
                except LoopCarried as e:
                    if is_conc(seq.n) and seq.n <= 3000 and False:
                        env.vars.clear()
                        env.vars.update(saved)
                        items = [seq.elem(i) for i in range(int(seq.n))]
                    else:
                        raise Unsupported('loop-carried dependency: %s' % e)
        else:
            items = seq
        broke = False
        for x in items:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke and s.orelse:
            self.block(s.orelse, env)

    def sym_for(self, s, seq, env):
        """summarise `for target in seq: body` for a symbolic number of iterations"""
        c = vc()
        if seq.kind == 'symlist_only':
            raise Unsupported('loop over this sequence')
        ks = [c.int('k') for _ in (seq.multi or (0,))]
        k, n = ks[0], seq.n
        ns = list(seq.multi or (n,))
        names = assigned_names(s.body) | assigned_names([ast.Assign([s.target], ast.Constant(0))])
        pre = dict(env.vars)
        accs = {}
        for attempt in range(12):
            L = Loop(c.loop_depth + 1, k)
            L.ks = ks
            try:
                paths, reads = self._run_body(s, seq, env, pre, names, accs, L, n)
                break
            except LoopCarried as e:
                nm = e.args[1] if len(e.args) > 1 else None
                if nm is None or nm in accs or nm not in pre or seq.multi:
                    raise
                init = pre[nm]
                if not (isinstance(init, S) or is_num(init)):
                    raise
                accs[nm] = c.real('acc.' + nm)
        else:
            raise LoopCarried('too many accumulators')
        # accumulators
        env.vars.clear()
        env.vars.update(pre)
        for nm in names:
            if nm in accs:
                continue
            env.vars[nm] = Poison('variable %s assigned in a summarised loop' % nm)
        if is_conc(n) is False and not c.entails(cmp('>', n, 0)):
            pass
        for nm, a0 in accs.items():
            delta = None
            for conds, res in reversed(paths):
                v = res['vals'].get(nm)
                if not (isinstance(v, S) or is_num(v)):
                    raise LoopCarried('accumulator %s is not numeric' % nm)
                d = z3.simplify(RT(v) - a0.t, som=True)
                if any(x.eq(a0.t) for x in core.consts_of(d)):
                    raise LoopCarried('accumulator %s is not additive' % nm)
                dv = S(d, core.nanof(v))
                delta = dv if delta is None else ite(S(z3.And(*conds)) if conds else True, dv, delta)
            if delta is None:
                delta = Fraction(0)
            nan = core.nanof(delta)
            t = c.sums.make(RT(delta), k.t, z3.IntVal(0), T(n))
            nn = None
            if nan is not None:
                with c.assuming([inr]):
                    if not c.entails(S(z3.Not(nan))):
                        nn = c.sums.make(z3.If(nan, z3.RealVal(1), z3.RealVal(0)), k.t, z3.IntVal(0), T(n)) > 0
            env.vars[nm] = add(core.toreal(pre[nm]), S(t, nn))
        # arrays
        bufs = []
        for conds, res in paths:
            for b in res['writes']:
                if b not in bufs:
                    bufs.append(b)
        for b in bufs:
            self._summarise(b, paths, ks, ns, accs, reads)

    def _run_body(self, s, seq, env, pre, names, accs, L, n):
        c = vc()
        k = L.k
        inr = conj([land(cmp('>=', q, 0), cmp('<', q, m)) for q, m in zip(L.ks, seq.multi or (n,))])
        all_reads = []

        def one():
            env.vars.clear()
            env.vars.update(pre)
            for nm in names:
                if nm in accs:
                    env.vars[nm] = accs[nm]
                else:
                    env.vars[nm] = Poison('loop-carried ' + nm, carried=nm)
            L.writes, L.saved, L.reads = {}, {}, []
            c.loops.append(L)
            fr = c.frames[-1]
            try:
                el = seq.elem(tuple(L.ks) if seq.multi else k)
                self.assign(s.target, el, env)
                try:
                    self.block(s.body, env)
                except ContinueEx:
                    pass
                except BreakEx:
                    raise LoopCarried('break in a summarised loop')
                except ReturnEx:
                    raise LoopCarried('return in a summarised loop')
                vals = {nm: env.vars.get(nm) for nm in accs}
                all_reads.extend(L.reads)
                return {'vals': vals, 'writes': dict(L.writes)}
            finally:
                c.loops.pop()
                for b, (fn, cache) in L.saved.items():
                    b.fn, b.cache = fn, cache
        with c.assuming([inr]):
            paths = c.explore(one)
        # keep branch decisions only: facts between were assumptions
        return paths, all_reads

    def _summarise(self, b, paths, ks, ns, accs, reads):
        c = vc()
        inside = lambda qs: conj([land(cmp('>=', q, 0), cmp('<', q, m)) for q, m in zip(qs, ns)])
        inr = inside(ks)
        k, n = ks[0], ns[0]
        one = len(ks) == 1
        nd = len(b.shape)
        old = b.snapshot()
        plist = []
        for conds, res in paths:
            ws = res['writes'].get(b)
            if ws:
                plist.append((S(z3.And(*conds)) if conds else True, ws))

        def wcond(idx):
            r = False
            for pc, ws in plist:
                w = False
                for cv in ws:
                    w = lor(w, cv(idx)[0])
                r = lor(r, land(pc, w))
            return r

        def wval(idx, base):
            v = base
            for pc, ws in plist:
                x = base
                for cv in ws:
                    cd, val = cv(idx)
                    if cd is False:
                        continue
                    val = val() if callable(val) else val
                    x = ite(cd, val, x)
                v = ite(pc, x, v)
            return v
        gx = tuple(c.int('gx') for _ in range(nd))
        with c.assuming([inr]):
            wc = wcond(gx)
        if wc is False:
            return
        # reads of a buffer written by the loop: other iterations must not touch what is read
        k2 = [c.int('k') for _ in ks]
        for arr in reads:
            if arr.buf is not b:
                continue
            rc = arr.inv(gx)[0]
            w2 = S(z3.substitute(BT(wc), *[(x.t, y.t) for x, y in zip(ks, k2)]))
            in2 = land(cmp('>=', k2[0], 0), cmp('<', k2[0], k)) if one else inside(k2)
            with c.assuming([inr, in2, lnot(conj([cmp('==', x, y) for x, y in zip(ks, k2)]))] + [land(cmp('>=', g, 0), cmp('<', g, m)) for g, m in zip(gx, b.shape)]):
                if not c.entails_raw(z3.Not(z3.And(BT(w2), BT(rc))), deep=True):
                    raise LoopCarried('iteration reads what another iteration wrote')
        if any(x.eq(a.t) for a in accs.values() for x in core.consts_of(BT(wc))):
            raise LoopCarried('write position depends on an accumulator')
        inv = []
        for kc in ks:
            for cand in self._inverse_candidates(BT(wc), gx, kc):
                with c.assuming([inr] + [land(cmp('>=', g, 0), cmp('<', g, m)) for g, m in zip(gx, b.shape)]):
                    if not any(x.eq(q.t) for q in ks for x in core.consts_of(cand)) and c.entails_raw(z3.Implies(BT(wc), kc.t == cand)):
                        inv.append(cand)
                        break
        if len(inv) < len(ks):
            if not one:
                raise Unsupported('positions written by a loop over several indices')
            inv = None
        acc_ts = [a.t for a in accs.values()]

        def subst(v, kk):
            if not isinstance(v, S):
                return v
            if acc_ts and any(x.eq(a) for a in acc_ts for x in core.consts_of(v.t)):
                raise Unsupported('stored value depends on an accumulator')
            kk = kk if isinstance(kk, list) else [kk]
            ps = [(q.t, x) for q, x in zip(ks, kk)]
            return S(z3.substitute(v.t, *ps), z3.substitute(v.nan, *ps) if v.nan is not None else None)
        cache = {}

        if inv is not None:
            def fn(idx):
                kk = [z3.simplify(z3.substitute(x, *[(g.t, T(i)) for g, i in zip(gx, idx)])) for x in inv]
                with c.assuming([inr]):
                    cd, v = wcond(idx), None
                    if cd is not False:
                        v = wval(idx, Fraction(0) if b.dtype == 'f' else (False if b.dtype == 'b' else 0))
                if cd is False:
                    return old(idx)
                cd = land(conj([land(S(x >= 0), S(x < T(m))) for x, m in zip(kk, ns)]), subst(cd if isinstance(cd, S) else S(BT(cd)), kk))
                cdt = z3.simplify(BT(cd))
                v2 = subst(v, kk)
                if z3.is_true(cdt) or c.entails_raw(cdt):
                    return v2
                if c.entails_raw(z3.Not(cdt)):
                    return old(idx)
                return ite(S(cdt), v2, old(idx))
        else:
            def hits(kq, x):
                xs = x if nd > 1 else (x,)
                with c.assuming([inr]):
                    cd = wcond(xs)
                return land(land(cmp('>=', kq, 0), cmp('<', kq, n)),
                            subst(cd if isinstance(cd, S) else S(BT(cd)), T(kq)))
            lw = last_writer(n, hits, nd)

            def fn(idx):
                w, kk = lw(idx)
                with c.assuming([inr]):
                    v = wval(idx, Fraction(0) if b.dtype == 'f' else (False if b.dtype == 'b' else 0))
                return ite(w, subst(v, kk.t), old(idx))
        for L in c.loops:
            if b.depth < L.depth:
                raise LoopCarried('array filled by a nested summarised loop')
        b.fn = fn
        b.cache = {}

    def _inverse_candidates(self, w, gx, k):
        """from atoms  g ~ a*k + b"""
        from .sums import linear_parts
        out, seen, st = [], set(), [w]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 2 and x.decl().kind() in (
                    z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(x.arg(0)):
                parts, const = linear_parts(z3.simplify(x.arg(0) - x.arg(1)))
                kc = parts.get(k.t.get_id())
                if kc is not None:
                    for g in gx:
                        gc = parts.get(g.t.get_id())
                        if gc is None or abs(gc[1]) != 1 or gc[1] * kc[1] >= 0:
                            continue
                        sgn = -gc[1]
                        a = kc[1] * sgn * 1
                        # gc*g + kc*k + rest ~ 0   ->  g ~ a*k + rest'
                        rest = [(t, m * sgn) for i, (t, m) in parts.items()
                                if i not in (k.t.get_id(), g.t.get_id())]
                        if any(t.eq(k.t) or any(t.eq(h.t) for h in gx) for t, _ in rest):
                            continue
                        from .sums import build_linear
                        b = build_linear(rest, const * sgn)
                        if a > 0:
                            for d in (0, 1, -1):
                                out.append(z3.simplify((g.t - b + d) / a) if a > 1 else z3.simplify(g.t - b + d))
            st.extend(x.children())
        uniq, res = set(), []
        for o in out:
            if o.get_id() not in uniq:
                uniq.add(o.get_id())
                res.append(o)
        return res[:8]

    def x_While(self, s, env):
        rule = self.supplied_rule(s, env)
        if rule is not None:
            return rule(self, s, env, None)
        c = vc()
        for it in range(400):
            t = self.truth_term(self.eval(s.test, env))
            if isinstance(t, S):
                tt = z3.simplify(t.t)
                if c.entails_raw(tt):
                    t = True
                elif c.entails_raw(z3.Not(tt)):
                    t = False
            if t is False:
                if s.orelse:
                    self.block(s.orelse, env)
                return
            if t is not True:
                return self.sym_while(s, env, t)
            try:
                self.block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
        raise Unsupported('while loop: no progress after 400 iterations')

    def supplied_rule(self, s, env):
        """a stateful object the loop uses (an open file) brings the invariant of loops over it"""
        used = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        for nm, v in env.vars.items():
            r = getattr(v, 'vloop', None) if nm in used else None
            if r is not None:
                return r
        return None

    def sym_while(self, s, env, t):
        """zero iterations, or: arbitrary loop state, one last iteration, exit"""
        c = vc()
        more = c.bool('iterates')
        if not c.branch(more):
            c.assume(lnot(t))
            c.loop_outcome = 'zero'
            return
        c.loop_outcome = 'many'
        c.assume(t)
        names = assigned_names(s.body)
        pre = dict(env.vars)
        # which arrays does the body modify in place?
        L = Loop(c.loop_depth + 1, c.int('w'))
        nf = len(c.facts)
        nob = len(c.obligs)
        c.loops.append(L)
        L.keep = True
        try:
            try:
                self.block(s.body, env)
            except (BreakEx, ContinueEx, ReturnEx):
                raise Unsupported('break/continue in an unbounded while loop')
        finally:
            c.loops.pop()
            touched = list(L.saved)
            post1 = {b: b.snapshot() for b in touched}
            for b, (fn, cache) in L.saved.items():
                b.fn, b.cache = fn, cache
            del c.facts[nf:]
            shapes = {nm: env.vars.get(nm) for nm in names}
            env.vars.clear()
            env.vars.update(pre)
        # arbitrary state
        kept = []
        for nm in names:
            v = shapes[nm]
            if nm not in pre:
                env.vars[nm] = Poison('assigned only inside the loop', carried=nm)
                continue
            env.vars[nm] = self.havoc(v, nm, self.present(pre[nm]) and isinstance(v, Arr))
            if isinstance(v, Arr) and env.vars[nm].finite_inv:
                kept.append(nm)
        inv_bufs, hav_bufs = [], []
        for b in touched:
            inv_bufs.append((b, b.fn))
        c.assume(self.truth_term(self.eval(s.test, env)))
        self.block(s.body, env)
        for b, fn0 in inv_bufs:
            idx = tuple(c.int('q') for _ in b.shape)
            inb = conj([land(cmp('>=', i, 0), cmp('<', i, m)) for i, m in zip(idx, b.shape)])
            new = b.read(idx)
            oldv = fn0(idx)
            with c.assuming([inb]):
                ok = c.entails_raw(BT(cmp('==', core.strip(new), core.strip(oldv))), deep=True, timeout=4000)
            c.obligation('loop invariant: array modified in the loop body keeps its entry value',
                         core.implies(inb, cmp('==', core.strip(new), core.strip(oldv))), 'invariant')
            if not ok:
                raise Unsupported('array modified by the loop')
            b.fn, b.cache = fn0, {}
        for nm in kept:
            v = env.vars[nm]
            if not isinstance(v, Arr) or not self.present(v):
                raise Unsupported('missing values may appear in %s' % nm)
            c.obligation('loop invariant: no missing value in ' + nm, True, 'invariant')
        c.assume(lnot(self.truth_term(self.eval(s.test, env))))

    def present(self, a):
        """an array without missing values (a loop invariant that is guessed, then checked)"""
        if not isinstance(a, Arr):
            a = getattr(a, 'arr', None)
        if not isinstance(a, Arr):
            return False
        idx = tuple(vc().int('q') for _ in a.shape)
        inb = conj([land(cmp('>=', i, 0), cmp('<', i, m)) for i, m in zip(idx, a.shape)])
        f = core.finite(a.at(*idx))
        if f is True:
            return True
        with vc().assuming([inb]):
            return vc().entails_raw(BT(f), deep=True, timeout=4000)

    def havoc(self, v, nm, fin=False):
        c = vc()
        if isinstance(v, Arr):
            r = c_fresh_array(v.shape, nm, v.dtype, bool(fin))
            r.finite_inv = bool(fin)
            return r
        h = getattr(v, 'vhavoc', None)
        if h is not None:
            return h(self, nm)
        if isinstance(v, bool) or isinstance(v, S) and v.is_bool:
            return c.bool(nm)
        if isint(v):
            return c.int(nm)
        if is_num(v) or isinstance(v, S):
            return c.real(nm)
        raise Unsupported('havoc of %s' % type(v).__name__)

    # --------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return S(z3.RealVal(0), z3.BoolVal(True))
            return Fraction(repr(v))
        if isinstance(v, complex):
            raise Unsupported('complex')
        return v

    def e_Name(self, e, env):
        try:
            v = env.lookup(e.id)
        except KeyError:
            if e.id in env.mod.ns:
                v = env.mod.ns[e.id]
            elif e.id in self.builtins:
                v = self.builtins[e.id]
            else:
                raise PyRaise(NameError, (e.id,))
        if isinstance(v, Poison):
            if v.carried:
                raise LoopCarried(v.why, v.carried)
            raise Unsupported(v.why)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return VList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return VSet(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                for kk in self.iterate(o):
                    d[kk] = self.getitem(o, kk)
            else:
                d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, S):
            raise Unsupported('symbolic dictionary key')
        return k

    def e_BinOp(self, e, env):
        return self.binop(BINOPS[type(e.op)], self.eval(e.left, env), self.eval(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return lnot(self.truth_term(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                return elementwise(lambda x: mul(-1, x), [v])
            h = getattr(v, 'vneg', None)
            if h:
                return h(self)
            if is_conc(v):
                return -v
            return mul(-1, v)
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr):
                return elementwise(lnot, [v], 'logic')
            h = getattr(v, 'vinvert', None)
            if h:
                return h(self)
            if isinstance(v, bool):
                return ~v
            if isinstance(v, S) and v.is_bool:
                return lnot(v)
            raise Unsupported('~')
        if isinstance(e.op, ast.UAdd):
            return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth_term(v)
            if isinstance(t, S):
                # both operands pure booleans: no need to branch when the rest cannot raise
                t = vc().branch(t)
                if isand and not t:
                    return False if isinstance(v, S) and v.is_bool else v
                if not isand and t:
                    return True if isinstance(v, S) and v.is_bool else v
                continue
            if isand and not t or not isand and t:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.compare(op, left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, Arr) or isinstance(v, Arr):
                    raise PyRaise(ValueError, ('truth value of an array',))
                res = land(self.truth_term(res), self.truth_term(v))
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is b:
                r = True
            elif a is None or b is None:
                r = False
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif type(a) is type(b) and isinstance(a, (int, str)):
                r = a == b
            elif isinstance(a, S) and isinstance(b, bool) or isinstance(b, S) and isinstance(a, bool):
                s, v = (a, b) if isinstance(a, S) else (b, a)
                r = (s if v else lnot(s)) if s.is_bool else False
            else:
                r = False
            return lnot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return lnot(r) if isinstance(op, ast.NotIn) else r
        return self.cmpop(CMPOPS[type(op)], a, b)

    def cmpop(self, o, a, b):
        for x, y, oo in ((a, b, o), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(o, o))):
            h = getattr(x, 'vcmp', None)
            if h is not None:
                r = h(self, oo, y)
                if r is not NotImplemented:
                    return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return elementwise(lambda x, y: cmp(o, x, y), [a, b], 'cmp')
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if isinstance(a, str) and isinstance(b, str) and (a != b or o not in ('==', '!=')) and self.has_token(a, b):
                raise Unsupported('comparison of texts with arbitrary numbers in them')
            if o == '==':
                return a == b if type(a) is type(b) else False
            if o == '!=':
                return a != b if type(a) is type(b) else True
            if isinstance(a, str) and isinstance(b, str):
                return core._OPS[o](a, b)
            raise PyRaise(TypeError, ('order',))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return o in ('==', '<=', '>=')
            raise Unsupported('comparison of an arbitrary value')
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if o in ('==', '!='):
                if type(a) is tuple and not type(b) is tuple or type(b) is tuple and not type(a) is tuple:
                    r = False
                elif len(a) != len(b):
                    r = False
                else:
                    r = conj([self.truth_term(self.cmpop('==', x, y)) for x, y in zip(a, b)])
                return r if o == '==' else lnot(r)
            raise Unsupported('sequence order')
        if isinstance(a, dict) and isinstance(b, dict):
            if o in ('==', '!='):
                if set(a) != set(b):
                    r = False
                else:
                    r = conj([self.truth_term(self.cmpop('==', a[x], b[x])) for x in a])
                return r if o == '==' else lnot(r)
        if isinstance(a, (S, bool, int, Fraction)) and isinstance(b, (S, bool, int, Fraction)):
            return cmp(o, a, b)
        if o == '==':
            return a is b or (type(a) is type(b) and isinstance(a, (set, frozenset)) and a == b)
        if o == '!=':
            return not (a is b)
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def contains(self, c, x):
        h = getattr(c, 'vcontains', None)
        if h is not None:
            return h(self, x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported('in string')
        if isinstance(c, (dict, set)):
            if isinstance(x, (S, Arr)):
                raise Unsupported('symbolic key')
            return x in c
        if isinstance(c, (list, tuple)):
            r = False
            for y in c:
                r = lor(r, self.truth_term(self.cmpop('==', x, y)))
                if r is True:
                    return True
            return r
        if isinstance(c, Range):
            raise Unsupported('in range')
        if hasattr(c, 'vkeys'):
            return x in list(c.vkeys(self))
        raise Unsupported('in %s' % type(c).__name__)

    def e_IfExp(self, e, env):
        t = self.truth_term(self.eval(e.test, env))
        if isinstance(t, S):
            t = vc().branch(t)
        return self.eval(e.body if t else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_JoinedStr(self, e, env):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.eval(v.value, env)
                spec = self.e_JoinedStr(v.format_spec, env) if v.format_spec else ''
                out += self.fmt(x, spec)
        return out

    def fmt(self, x, spec=''):
        if isinstance(x, Fraction):
            return format(float(x), spec)
        if isinstance(x, (str, int, bool, type(None))):
            return format(x, spec) if x is not None else 'None'
        h = getattr(x, 'vformat', None)
        if h:
            return h(self, spec)
        if isinstance(x, S) and x.is_int and getattr(self, 'tokens', None) is not None:
            return self.token(x, spec)
        if isinstance(x, (S, Arr, Opaque)):
            return '<?>' if getattr(self, 'loose_format', False) else self._nofmt(x)
        if isinstance(x, (list, tuple, dict)):
            return str(x) if getattr(self, 'loose_format', False) else self._nofmt(x)
        return str(x)

    def token(self, x, spec=''):
        """text of an arbitrary integer: one private-use character standing for it"""
        spec = spec.rstrip('d')
        for i, (t, sp) in enumerate(self.tokens):
            if sp == spec and t.t.eq(x.t):
                return chr(0xE000 + i)
        self.tokens.append((x, spec))
        return chr(0xE000 + len(self.tokens) - 1)

    def has_token(self, *xs):
        if vc().text and any(ch in vc().text for x in xs if isinstance(x, str) for ch in x):
            return True
        return bool(getattr(self, 'tokens', None)) and any(0xE000 <= ord(ch) < 0xE000 + len(self.tokens) for x in xs if isinstance(x, str) for ch in x)

    def _nofmt(self, x):
        raise Unsupported('formatting a symbolic value')

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: self.eval(x, env) if x is not None else None
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Slice(self, s, env):
        return self.eval_index(s, env)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def comp(self, gens, env, emit):
        def rec(i, ev):
            if i == len(gens):
                emit(ev)
                return
            g = gens[i]
            for x in self.iterate(self.eval(g.iter, ev)):
                self.assign(g.target, x, ev)
                if all(self.truth(self.eval(t, ev)) for t in g.ifs):
                    rec(i + 1, ev)
        rec(0, Env(env.mod, env))

    def e_ListComp(self, e, env):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            seq = self.as_seq(self.eval(g.iter, env))
            if isinstance(seq, SymSeq) and not (is_conc(seq.n) and seq.n <= UNROLL):
                def elem(k):
                    ev = Env(env.mod, env)
                    self.assign(g.target, seq.elem(k), ev)
                    return self.eval(e.elt, ev)
                r = SymSeq(seq.n, elem)
                r.multi = seq.multi
                return r
            out = VList()
            for x in (seq if not isinstance(seq, SymSeq) else [seq.elem(i) for i in range(int(seq.n))]):
                ev = Env(env.mod, env)
                self.assign(g.target, x, ev)
                out.append(self.eval(e.elt, ev))
            return out
        if len(e.generators) == 1:
            g = e.generators[0]
            seq = self.as_seq(self.eval(g.iter, env))
            if isinstance(seq, SymSeq) and not seq.multi and not (is_conc(seq.n) and seq.n <= UNROLL):
                return self.filtered(e, g, seq, env)
            out = VList()
            for x in (seq if not isinstance(seq, SymSeq) else [seq.elem(i) for i in range(int(seq.n))]):
                ev = Env(env.mod, env)
                self.assign(g.target, x, ev)
                if all(self.truth(self.eval(t, ev)) for t in g.ifs):
                    out.append(self.eval(e.elt, ev))
            return out
        out = VList()
        self.comp(e.generators, env, lambda ev: out.append(self.eval(e.elt, ev)))
        return out

    def filtered(self, e, g, seq, env):
        """[elt for x in seq if cond]: the elements at the selected positions, in order"""
        def cond(k):
            ev = Env(env.mod, env)
            self.assign(g.target, seq.elem(k), ev)
            return conj([self.truth_term(self.eval(t, ev)) for t in g.ifs])
        sel = arrays.compress_info(Arr.new((seq.n,), lambda i: cond(i[0]), 'b'))

        def elem(r):
            k = sel.sel(r)[0]
            vc().axiom(implies(land(cmp('>=', r, 0), cmp('<', r, sel.cnt)), land(cmp('>=', k, 0), cmp('<', k, seq.n))))
            ev = Env(env.mod, env)
            self.assign(g.target, seq.elem(k), ev)
            return self.eval(e.elt, ev)
        r = SymSeq(sel.cnt, elem)
        r.sel_info = sel
        return r

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        out = VSet()
        self.comp(e.generators, env, lambda ev: out.add(self.eval(e.elt, ev)))
        return out

    def e_DictComp(self, e, env):
        out = VDict()

        def emit(ev):
            out[self.hashable(self.eval(e.key, ev))] = self.eval(e.value, ev)
        self.comp(e.generators, env, emit)
        return out

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, env)
                for kk in self.iterate(o):
                    kw[kk] = self.getitem(o, kk)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    # -------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(*args, **kw)
        if isinstance(f, Cls):
            o = Inst(f)
            init = f.lookup('__init__')
            if init is not None:
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcValue(f, args)
        h = getattr(f, 'vcall', None)
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError, ('too many arguments for %s' % f.name,))
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    raise PyRaise(TypeError, ('multiple values for %s' % k,))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(TypeError, ('unexpected keyword %s' % k,))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = VDict(extra)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(n, d)
        for n in kwonly:
            if n not in vals:
                if n in f.kwdefaults:
                    vals[n] = f.kwdefaults[n]
        for n in names + kwonly:
            if n not in vals:
                raise PyRaise(TypeError, ('missing argument %s of %s' % (n, f.name),))
        return vals

    def call_func(self, f, args, kw):
        vals = self.bind(f, args, kw)
        ct = self.contracts.get(f.qual)
        if ct is not None:
            r = ct(self, f, vals)
            if r is not NotImplemented:
                return r
        if self.call_depth > 60:
            raise Unsupported('recursion depth')
        env = Env(f.mod, f.env if f.env is not None and f.env.vars is not f.mod.ns else None)
        env.fname = f.name
        env.vars.update(vals)
        if f.mod.name.startswith('metsim') and f.name != '<lambda>':
            vc().functions.add(f.qual)
        self.call_depth += 1
        wh = vc().where
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported('generator function')
            self.block(f.node.body, env)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.call_depth -= 1
            vc().where = wh

    # --------------------------------------------------------- operations
    def truth_term(self, v):
        """truth value as bool or S(bool)"""
        if isinstance(v, bool):
            return v
        if isinstance(v, S):
            if v.is_bool:
                return v
            if v.nan is not None:
                return lift(z3.Or(v.nan, v.t != 0))
            return cmp('!=', v, 0)
        if v is None:
            return False
        if is_num(v):
            return v != 0
        if isinstance(v, (str, tuple, list, dict, set)):
            return len(v) > 0
        if isinstance(v, SymSeq):
            return cmp('>', v.n, 0)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truth_term(v.at())
            if all(is_conc(x) for x in v.shape) and v.size == 1:
                return self.truth_term(v.at(*([0] * v.ndim)))
            raise PyRaise(ValueError, ('truth value of an array is ambiguous',))
        h = getattr(v, 'vtruth', None)
        if h is not None:
            return h(self)
        if isinstance(v, Opaque):
            raise Unsupported('truth of an arbitrary value')
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return True

    def truth(self, v):
        t = self.truth_term(v)
        if isinstance(t, S):
            return vc().branch(t)
        return t

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        h = getattr(a, 'vbin', None)
        if h is not None:
            r = h(self, op, b, False)
            if r is not NotImplemented:
                return r
        h = getattr(b, 'vbin', None)
        if h is not None:
            r = h(self, op, a, True)
            if r is not NotImplemented:
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)):
                a = arrays.from_seq(a)
            if isinstance(b, (list, tuple)):
                b = arrays.from_seq(b)
            kind = 'div' if op == '/' else 'num'
            if op in '&|^':
                if all(arrays.dtype_of(x) == 'b' for x in (a, b)):
                    return elementwise({'&': land, '|': lor, '^': lambda x, y: cmp('!=', x, y)}[op], [a, b], 'logic')
                raise Unsupported('bitwise on numbers')
            dt = None
            if op == '**' and arrays.result_dtype('num', [arrays.dtype_of(a), arrays.dtype_of(b)]) == 'i':
                dt = 'i'
            return elementwise(lambda x, y: self.scalar_op(op, x, y), [a, b], kind, dt)
        if isinstance(a, str) or isinstance(b, str):
            if op == '+' and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == '*' and isinstance(b, int):
                return a * b
            if op == '%' and isinstance(a, str):
                bs = b if isinstance(b, tuple) else (b,)
                return a % tuple(self.fmtval(x) for x in bs) if isinstance(b, tuple) else a % self.fmtval(b)
            raise PyRaise(TypeError, ('str operand',))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == '+':
            if isinstance(a, tuple) != isinstance(b, tuple):
                raise PyRaise(TypeError, ('concatenate',))
            return tuple(a) + tuple(b) if isinstance(a, tuple) else VList(list(a) + list(b))
        if isinstance(a, (list, tuple)) and op == '*' and isinstance(b, int):
            return type(a)(list(a) * b) if isinstance(a, tuple) else VList(list(a) * b)
        if isinstance(b, (list, tuple)) and op == '*' and isinstance(a, int):
            return self.binop(op, b, a)
        if isinstance(a, (set,)) and isinstance(b, (set,)):
            return VSet({'-': a - b, '|': a | b, '&': a & b, '^': a ^ b}[op])
        if isinstance(a, dict) and isinstance(b, dict) and op == '|':
            d = VDict(a)
            d.update(b)
            return d
        if isinstance(a, (S, bool, int, Fraction)) and isinstance(b, (S, bool, int, Fraction)):
            return self.scalar_op(op, a, b)
        raise Unsupported('%s %s %s' % (type(a).__name__, op, type(b).__name__))

    def fmtval(self, x):
        if isinstance(x, Fraction):
            return float(x)
        if isinstance(x, (str, int, bool, type(None))):
            return x
        return self.fmt(x)

    def scalar_op(self, op, a, b):
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return div(a, b)
        if op == '//':
            return core.floordiv(a, b)
        if op == '%':
            return core.mod(a, b)
        if op == '**':
            return core.power(a, b)
        if op in '&|^':
            if (isinstance(a, bool) or isinstance(a, S) and a.is_bool) and (isinstance(b, bool) or isinstance(b, S) and b.is_bool):
                return {'&': land, '|': lor, '^': lambda x, y: cmp('!=', x, y)}[op](a, b)
            if is_conc(a) and is_conc(b) and isinstance(a, int) and isinstance(b, int):
                return {'&': a & b, '|': a | b, '^': a ^ b}[op]
            # truth-valued int & bool as used in conditions
            raise Unsupported('bitwise operator on symbolic integers')
        raise Unsupported('operator ' + op)

    def getattr(self, o, n):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Module):
            if n in o.ns:
                v = o.ns[n]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            dyn = getattr(o, 'dynamic', None)
            if dyn:
                v = dyn(n)
                if v is not None:
                    return v
            if o.name.startswith('metsim'):
                try:
                    return self.load(o.name + '.' + n)
                except Unsupported:
                    raise PyRaise(AttributeError, (n,))
            raise Unsupported('%s.%s' % (o.name, n))
        if isinstance(o, Inst):
            cv = o.cls.lookup(n)
            if isinstance(cv, PropertyV):
                return self.call(cv.fget, [o], {})
            if n in o.d:
                return o.d[n]
            if n == '__dict__':
                return VDict(o.d)
            if n == '__class__':
                return o.cls
            if cv is None:
                raise PyRaise(AttributeError, (n,))
            if isinstance(cv, Func):
                return BoundMethod(cv, o)
            if isinstance(cv, StaticV):
                return cv.f
            if isinstance(cv, ClassV):
                return BoundMethod(cv.f, o.cls)
            if isinstance(cv, Poison):
                raise Unsupported(cv.why)
            return cv
        if isinstance(o, Cls):
            v = o.lookup(n)
            if v is None:
                if n == '__name__':
                    return o.name
                raise PyRaise(AttributeError, (n,))
            if isinstance(v, StaticV):
                return v.f
            if isinstance(v, ClassV):
                return BoundMethod(v.f, o)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        h = getattr(o, 'vattr', None)
        if h is not None:
            r = h(self, n)
            if r is not NotImplemented:
                return r
            raise Unsupported('attribute %s of %s' % (n, type(o).__name__))
        return self.models.attribute(self, o, n)

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            o.d[n] = v
            return
        if isinstance(o, Cls):
            o.ns[n] = v
            return
        if isinstance(o, Module):
            o.ns[n] = v
            return
        h = getattr(o, 'vsetattr', None)
        if h is not None:
            return h(self, n, v)
        raise Unsupported('attribute assignment on %s' % type(o).__name__)

    def getitem(self, o, k):
        h = getattr(o, 'vgetitem', None)
        if h is not None:
            return h(self, k)
        if isinstance(o, Arr):
            if isinstance(k, tuple):
                k = tuple(self.arr_key(x) for x in k)
            else:
                k = self.arr_key(k)
            return o.get(k)
        if isinstance(o, dict):
            if isinstance(k, (S, Arr)):
                raise Unsupported('symbolic key')
            if isinstance(k, list) or isinstance(k, dict):
                raise PyRaise(TypeError, ('unhashable',))
            if k not in o:
                raise PyRaise(KeyError, (k,))
            v = o[k]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                if any(isinstance(x, S) for x in (k.start, k.stop, k.step)):
                    raise Unsupported('symbolic slice of a list')
                r = o[k]
                return VList(r) if isinstance(o, list) else r
            if isinstance(k, S):
                if isinstance(o, str):
                    raise Unsupported('symbolic string index')
                c = land(cmp('>=', k, 0), cmp('<', k, len(o)))
                vc().safety('list index within bounds', c, IndexError)
                try:
                    return arrays.select(list(o), k)
                except Unsupported:
                    # element objects: branch on the index
                    for j in range(len(o)):
                        if vc().branch(cmp('==', k, j)):
                            return o[j]
                    raise PathAbort()
            if isinstance(k, bool) or not isinstance(k, int):
                raise PyRaise(TypeError, ('list indices must be integers',))
            if not -len(o) <= k < len(o):
                raise PyRaise(IndexError, ('list index out of range',))
            return o[k]
        if isinstance(o, SymSeq):
            if isinstance(k, slice):
                raise Unsupported('slice of symbolic sequence')
            if is_conc(k) and k < 0:
                k = add(o.n, k)
            vc().safety('sequence index within bounds', land(cmp('>=', k, 0), cmp('<', k, o.n)), IndexError)
            return o.elem(k)
        if isinstance(o, Range):
            return add(o.a, mul(o.s, k))
        raise Unsupported('subscript of %s' % type(o).__name__)

    def arr_key(self, k):
        if isinstance(k, VList):
            return arrays.from_seq(k)
        h = getattr(k, 'varr', None)
        if h is not None:
            return h(self)
        if isinstance(k, Arr) and k.ndim == 0:
            return k.at()
        return k

    def setitem(self, o, k, v):
        h = getattr(o, 'vsetitem', None)
        if h is not None:
            return h(self, k, v)
        if isinstance(o, Arr):
            k = tuple(self.arr_key(x) for x in k) if isinstance(k, tuple) else self.arr_key(k)
            hv = getattr(v, 'varr', None)
            if hv is not None:
                v = hv(self)
            if isinstance(v, SymSeq):
                v = self.models.to_arr(self, v)
            o.put(k, v)
            return
        if isinstance(o, dict):
            check_mut(o)
            o[self.hashable(k)] = v
            return
        if isinstance(o, list):
            check_mut(o)
            if isinstance(k, S):
                raise Unsupported('symbolic list store')
            if not -len(o) <= k < len(o):
                raise PyRaise(IndexError, ('list assignment',))
            o[k] = v
            return
        raise Unsupported('item assignment on %s' % type(o).__name__)

    # ----------------------------------------------------------- iteration
    def as_seq(self, it):
        """python list, or SymSeq"""
        if isinstance(it, Poison):
            raise Unsupported(it.why)
        if isinstance(it, SymSeq):
            return it
        if isinstance(it, Range):
            if is_conc(it.a) and is_conc(it.b) and is_conc(it.s):
                r = range(it.a, it.b, it.s)
                if len(r) <= UNROLL:
                    return list(r)
                return SymSeq(len(r), lambda k: add(it.a, mul(it.s, k)))
            if not is_conc(it.s):
                raise Unsupported('symbolic range step')
            if it.s > 0:
                n = core.floordiv(add(sub(it.b, it.a), it.s - 1), it.s)
            else:
                n = core.floordiv(add(sub(it.a, it.b), -it.s - 1), -it.s)
            if not vc().entails(cmp('>=', n, 0)):
                n = core.maximum(n, 0)
            return SymSeq(n, lambda k: add(it.a, mul(it.s, k)))
        if isinstance(it, Arr):
            if it.ndim == 0:
                raise PyRaise(TypeError, ('iteration over 0-d array',))
            rd = it.reader() if it.ndim == 1 else None
            if is_conc(it.shape[0]) and it.shape[0] <= UNROLL:
                return [it.get(i) for i in range(it.shape[0])]
            return SymSeq(it.shape[0], (lambda k: rd((k,))) if rd else (lambda k: it.get(k)))
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, (list, tuple, set, frozenset)):
            return list(it) if not isinstance(it, (set, frozenset)) else sorted(it, key=str)
        if isinstance(it, str):
            return list(it)
        h = getattr(it, 'vseq', None)
        if h is not None:
            return h(self)
        raise Unsupported('iteration over %s' % type(it).__name__)

    def iterate(self, it, expect=None):
        s = self.as_seq(it)
        if isinstance(s, SymSeq):
            n = s.n
            if expect is not None and not is_conc(n):
                vc().safety('unpacking length', cmp('==', n, expect), ValueError)
                n = expect
            if is_conc(n) and n <= 4000:
                return [s.elem(i) for i in range(int(n))]
            raise Unsupported('iteration over a sequence of symbolic length')
        return s


def imported_names(st):
    out = set()
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        for a in st.names:
            out.add((a.asname or a.name).split('.')[0])
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        out.add(st.name)
    if isinstance(st, ast.Try):
        for b in st.body:
            out |= imported_names(b)
    return out


def c_fresh_array(shape, nm, dtype='f', finite=False):
    """array with arbitrary contents"""
    c = vc()
    name = c.fresh_name(nm)
    I = z3.IntSort()
    sort = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[dtype]
    f = z3.Function(name, *([I] * len(shape)), sort)
    g = z3.Function(name + '.nan', *([I] * len(shape)), z3.BoolSort()) if dtype == 'f' and not finite else None

    def fn(idx):
        ts = [T(i) for i in idx]
        return S(f(*ts), g(*ts) if g is not None else None)
    return Arr.new(shape, fn, dtype, name)
