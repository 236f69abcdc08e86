"""Forcing files: what the operating system and the libraries hand to the readers."""
import ast
from .common import *
from pyvc.core import Unsupported, PyRaise, PathAbort
from pyvc.interp import Builtin, VList, VDict, SymSeq, Poison, assigned_names, BreakEx, ContinueEx
from . import model_contracts as mc

ASSUMPTIONS = ['operating system: open/read deliver the words of a file in order; struct: h and H are the signed and unsigned reading of two bytes',
               'pandas: read_csv without header delivers the columns of the file in order under the given names; head(n) the first n rows',
               'text of a number denotes that number (file names, scales, constants); labels of a coordinate are distinct and finite',
               'xarray: selection and .loc assignment by label address the one position that carries the label, KeyError if there is none; '
               'rename and subsetting leave the values alone; full_like fills a field of floating-point numbers',
               'machine arithmetic treated as real']


# ------------------------------------------------------------------ labels
def distinct(h, a):
    """labels of a coordinate are pairwise different"""
    d = base_decl(a)
    n = a.shape[0]
    seen = []

    def inst(args):
        x, out = args[0], []
        for y in seen:
            out.append(BT(implies(conj([cmp('!=', S(x), S(y)), rng(S(x), n), rng(S(y), n)]), cmp('!=', S(d(x)), S(d(y))))))
        seen.append(x)
        return out
    h.c.__dict__.setdefault('_label_apps', {})[d.name()] = seen
    old = h.c.on_app.get(d.name())
    h.c.on_app[d.name()] = inst if old is None else (lambda args: old(args) + inst(args))
    return a


def position(labels, v):
    """(found, i): where a coordinate carries the label v"""
    c = core.vc()
    known = c.__dict__.setdefault('_label_pos', {})
    if known.get('run') is not c.facts:
        known.clear()
        known['run'] = c.facts
    k = (id(labels.buf), T(v).get_id())
    if k in known:
        return known[k][:2]
    found, i = c.bool('label found'), c.int('position')
    c.axiom(implies(found, land(rng(i, labels.shape[0]), cmp('==', labels.at(i), v))))
    d = base_decl(labels)

    def inst(args):
        return [BT(implies(land(lnot(found), rng(S(args[0]), labels.shape[0])), cmp('!=', S(d(*args)), v)))]
    old = c.on_app.get(d.name())
    c.on_app[d.name()] = inst if old is None else (lambda args: old(args) + inst(args))
    for x in c.__dict__.get('_label_apps', {}).get(d.name(), []):
        for q in inst([x]):
            c.axiom(q)
    known[k] = (found, i, labels, v)
    return found, i


# ------------------------------------------------------------- binary files
class Word:
    """two bytes of a file (value 0..65535 little-endian), or nothing at its end"""
    def __init__(self, w):
        self.w = w

    def vtruth(self, it):
        return self.w is not None

    def vlen(self):
        return 2 if self.w is not None else 0

    def vcmp(self, it, op, o):
        if isinstance(o, bytes) and op in ('==', '!=') and o == b'':
            return (self.w is None) == (op == '==')
        return NotImplemented


def signed(w):
    return ite(cmp('<', w, 32768), w, sub(w, 65536))


def reading(w, t):
    """the number two bytes stand for"""
    return signed(w) if t == 'signed' else w


class GrowList:
    """list of any length with items appended to it"""
    def __init__(self, n, elem):
        self.n, self.elem, self.more = n, elem, []

    def vattr(self, it, n):
        if n == 'append':
            return Builtin(lambda x: self.more.append(x))
        raise Unsupported('method %s of a list of any length' % n)

    def seq(self):
        if self.more:
            raise Unsupported('list of any length with appended items')
        return SymSeq(self.n, self.elem)

    def vseq(self, it):
        return self.seq()

    def varr(self, it):
        return models.to_arr(it, self.seq())

    def vlen(self):
        return add(self.n, len(self.more))


class Bin:
    """an open binary file of `words` two-byte words; the invariant of loops that read it:
    after p words, list v of the K lists holds the decoded words v, v+K, v+2K .. below p"""
    def __init__(self, h, words, K, n, decodes):
        self.h, self.words, self.K, self.n, self.decodes = h, words, K, n, decodes
        self.decode = decodes[0]
        I = z3.IntSort()
        self.f = z3.Function('file_word', I, I)
        h.c.on_app['file_word'] = lambda a: [z3.And(self.f(a[0]) >= 0, self.f(a[0]) < 65536)]
        self.pos, self.dry = 0, False

    def word(self, p):
        return S(self.f(T(toint(p))))

    def value(self, v, t):
        return self.decode(v, self.word(add(mul(self.K, t), v)))

    def venter(self, it):
        return self

    def vexit(self, it):
        pass

    def vattr(self, it, n):
        if n == 'read':
            def read(k=None):
                if k != 2:
                    raise Unsupported('read of %s bytes' % (k,))
                if not self.dry and not core.vc().branch(cmp('<', self.pos, self.words)):
                    return Word(None)
                if core.vc().loops:
                    raise Unsupported('file read in a summarised loop')
                w = Word(self.word(self.pos))
                self.pos = add(self.pos, 1)
                return w
            return Builtin(read)
        if n == 'close':
            return Builtin(lambda: None)
        raise Unsupported('file method %s' % n)

    def vloop(self, it, s, env, seq):
        c, K = core.vc(), self.K
        no = lambda why: Unsupported('supplied loop invariant does not fit: ' + why)
        if not core.is_conc(self.pos) or self.pos != 0:
            raise no('file partly read')
        names = assigned_names(s.body) | (assigned_names([ast.Assign([s.target], ast.Constant(0))]) if seq is not None else set())
        pre = dict(env.vars)
        outer = None
        for v in pre.values():
            if isinstance(v, VList) and v and all(isinstance(x, VList) and not x for x in v) or isinstance(v, VDict) and v and all(isinstance(x, VList) and not x for x in v.values()):
                if outer is not None and outer is not v:
                    raise no('several lists of lists')
                outer = v
        keys = None if outer is None else (list(range(len(outer))) if isinstance(outer, VList) else list(outer))
        if outer is None or len(keys) != K or len({id(outer[k]) for k in keys}) != K:
            raise no('no list of %d empty lists' % K)
        ints = [nm for nm in names if nm in pre and isinstance(pre[nm], int) and not isinstance(pre[nm], bool)]

        def body(j):
            if seq is not None:
                it.assign(s.target, seq.elem(j), env)
            try:
                it.block(s.body, env)
            except ContinueEx:
                pass
        # a trial run of the first rounds tells how many words one round reads and what its counters count
        self.dry, hist, reads = True, {nm: [pre[nm]] for nm in ints}, []
        try:
            for j in range(2 * K + 1):
                p0 = self.pos
                try:
                    body(j)
                except BreakEx:
                    raise no('left in the first rounds')
                reads.append(self.pos - p0)
                for nm in ints:
                    hist[nm].append(env.vars[nm])
            # and what is kept of a word
            kept = [list(outer[k]) for k in keys]
            for dec in self.decodes:
                self.decode = dec
                if all(models.is_scalar(x) and c.entails(eq(x, self.value(v, t))) for v, xs in enumerate(kept) for t, x in enumerate(xs)):
                    break
            else:
                raise no('items kept in the first rounds')
        finally:
            self.dry, self.pos = False, 0
            for k in keys:
                list.clear(outer[k])
            env.vars.clear()
            env.vars.update(pre)
        w = reads[0]
        if set(reads) != {w} or w not in (1, K):
            raise no('%r words per round' % (reads,))
        counts = {}
        for nm, vs in hist.items():
            if not all(isinstance(v, int) for v in vs):
                raise no('counter ' + nm)
            for q, f in (('j', lambda j: j), ('p', lambda j: j * w), ('j mod K', lambda j: j % K), ('j div K', lambda j: j // K), ('const', lambda j: vs[0])):
                if all(v == f(j) for j, v in enumerate(vs)):
                    counts[nm] = q
                    break
            else:
                raise no('counter ' + nm)
        self.h.prove('loop invariant holds at the start of the file', BT(True), kind='invariant')
        # any round: j = q*K + r (one word) or any j (K words)
        q, r = c.int('q'), 0
        c.assume(q >= 0)
        if w == 1:
            while r < K - 1 and c.branch(c.bool('not turn %d' % r)):
                r += 1
            j, p = add(mul(q, K), r), add(mul(q, K), r)
            val = {'j': j, 'p': p, 'j mod K': r, 'j div K': q}
        else:
            j, p = q, mul(q, K)
            val = {'j': j, 'p': p, 'const': None}
        at = lambda nm, m: pre[nm] if counts[nm] == 'const' else m[counts[nm]]
        if any(counts[nm] not in val and counts[nm] != 'const' for nm in counts):
            raise no('counters')
        c.assume(cmp('<=', p, mul(K, self.n)))
        for nm in names:
            env.vars[nm] = at(nm, val) if nm in counts else Poison('assigned in the loop')
        for v, k in enumerate(keys):
            have = add(q, 1 if v < r else 0)
            outer[k] = GrowList(have, lambda t, v=v: self.value(v, t))
        lists = [outer[k] for k in keys]
        self.pos = p
        goes = lambda: it.truth_term(it.eval(s.test, env)) if seq is None else cmp('<', j, seq.n)
        if c.branch(c.bool('another round')):
            g = goes()
            if g is False or isinstance(g, S) and c.entails(lnot(g)):
                raise PathAbort()
            c.assume(g)
            try:
                body(j)
            except BreakEx:
                # leaves here, with what it has
                return
            r2 = (r + w) % K
            q2 = add(q, (r + w) // K)
            p2 = add(p, w)
            val2 = {'j': add(j, 1), 'p': p2, 'j mod K': r2, 'j div K': q2}
            ok = [cmp('==', self.pos, p2), cmp('<=', p2, mul(K, self.n))]
            for nm in counts:
                if not core.isint(env.vars[nm]):
                    raise no('counter ' + nm)
                ok.append(cmp('==', env.vars[nm], at(nm, val2)))
            for v, g_ in enumerate(lists):
                ok.append(cmp('==', g_.vlen(), add(q2, 1 if v < r2 else 0)))
                for m, x in enumerate(g_.more):
                    if not models.is_scalar(x):
                        raise no('appended item')
                    ok.append(eq(x, self.value(v, add(g_.n, m))))
            if any(outer[k] is not g_ for k, g_ in zip(keys, lists)):
                raise no('lists replaced')
            if not c.entails(conj(ok)):
                raise no('not kept by a round')
            self.h.prove('loop invariant: every list keeps its variable\'s words in order', conj(ok), kind='invariant')
            raise PathAbort()
        c.assume(lnot(goes()))
        if c.entails(BT(False)):
            raise PathAbort()


def binary(h, words, K, n, decodes, handle):
    """open(), struct: stand-ins over one file"""
    f = Bin(h, words, K, n, decodes)

    def open_(name, mode='r', *a, **k):
        if name != handle:
            h.prove('the file asked for is read', BT(False))
            raise PathAbort()
        if mode != 'rb' or a or set(k) - {'buffering'}:
            raise Unsupported('open mode %r' % mode)
        return f

    def unpack(fmt, b):
        if not isinstance(b, Word) or b.w is None or not isinstance(fmt, str):
            raise Unsupported('struct.unpack')
        t = fmt.lstrip('<=@>!')
        w = b.w if fmt[0] not in '>!' else add(mul(256, mod(b.w, 256)), floordiv(b.w, 256))
        if t not in ('h', 'H'):
            raise Unsupported('struct.unpack format')
        return (reading(w, 'signed' if t == 'h' else 'unsigned'),)
    h.it.builtins['open'] = Builtin(open_)
    h.it.modeled['struct'] = mc.module('struct', unpack=Builtin(unpack))
    return f


def dataset_model(h):
    """xr.Dataset(data, coords, attrs) of a reader"""
    x = h.it.modeled['xarray']
    plain = x.ns['Dataset']

    def dataset(data_vars=None, coords=None, attrs=None):
        if data_vars is None:
            return h.it.call(plain, [], {k: v for k, v in (('coords', coords), ('attrs', attrs)) if v is not None})
        t = (coords or {}).get('time')
        if not isinstance(t, models.DTIndex):
            raise Unsupported('Dataset without a time axis')
        d = DS_('file', {}, {'time': t.n}, t)
        for k, v in data_vars.items():
            if not isinstance(v, (tuple, list)) or len(v) < 2 or list(v[0] if not isinstance(v[0], str) else [v[0]]) != ['time']:
                raise Unsupported('Dataset variable')
            a = v[1]
            a = models.to_arr(h.it, a.seq() if isinstance(a, GrowList) else a)
            core.vc().safety('one value per day', cmp('==', a.shape[0], t.n), ValueError)
            a = Arr.new((t.n,), a.reader(), a.dtype)
            d.vars[k] = mc.DA(a, ('time',), t, k)
        d.coordinates = coords
        return d
    x.ns['Dataset'] = Builtin(dataset)

    def variable(dims, data, attrs=None, **k):
        dims = (dims,) if isinstance(dims, str) else tuple(dims)
        a = models.to_arr(h.it, data)
        return mc.DA(a, dims)
    x.ns['Variable'] = Builtin(variable)

    def full_like(o, v, dtype=None):
        if not isinstance(o, mc.DA) or o.arr is None or dtype is not None or not models.is_scalar(v):
            raise Unsupported('full_like')
        r = mc.DA(arrays.const_arr(o.arr.shape, toreal(v), 'f'), o.dims, o.index)
        r.labels = o.labels
        return r
    x.ns['full_like'] = Builtin(full_like)
    x.ns['CFTimeIndex'] = models.TypeTok('CFTimeIndex', lambda v: getattr(v, 'cf', False))


class DS_(mc.DS):
    def vsetitem(self, it, k, v):
        if isinstance(v, mc.DA) and v.index is None and v.dims == ('time',) and v.arr is not None:
            core.vc().safety('one value per day', cmp('==', v.arr.shape[0], self.index.n), ValueError)
            v = mc.DA(v.arr, ('time',), self.index, k)
        super().vsetitem(it, k, v)
