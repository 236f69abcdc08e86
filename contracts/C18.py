"""Forcing readers deliver every value to its own cell, day and variable."""
from .common import *
import itertools
from pyvc.core import Unsupported, PyRaise, PathAbort
from pyvc.interp import Builtin, VList, VDict, SymSeq, Poison, assigned_names, BreakEx, ContinueEx
from . import model_contracts as mc
from . import io_contracts as ioc
from .io_contracts import DS_, distinct

ASSUMPTIONS = ioc.ASSUMPTIONS
ALL = ['prec', 't_max', 't_min', 'wind', 'shortwave', 'vapor_pressure', 'air_pressure', 'longwave']


def base(h):
    mc.surroundings(h)
    mc.xarray_model(h)
    ioc.dataset_model(h)


def span(h):
    c = h.c
    d0, n = c.int('first_day'), c.int('n_days')
    c.assume(n >= 1)
    return models.TS(mul(1440, d0)), models.TS(mul(1440, sub(add(d0, n), 1))), n


def config_text(h, kinds):
    """'scale type' of every variable of a binary file"""
    sc = []
    for k, t in enumerate(kinds):
        s = h.c.real('scale%d' % k)
        h.c.assume(s > 0)
        sc.append(s)
    return sc, ['%s %s' % (models.number_text(s), t) for s, t in zip(sc, kinds)]


def read_binary(names, kinds):
    """one file: words in record order, scaled, signed or unsigned"""
    def u(h):
        c = h.c
        base(h)
        start, stop, n = span(h)
        K = len(names)
        sc, text = config_text(h, kinds)
        words = c.int('words')
        c.assume(words >= mul(K, n))
        la, lo = c.real('file_lat'), c.real('file_lon')
        fn = '/in/run_1/data_%s_%s' % (models.number_text(la), models.number_text(lo))
        raw = lambda v, w: core.toreal(ioc.reading(w, kinds[v]))
        f = ioc.binary(h, words, K, n, [lambda v, w: div(raw(v, w), sc[v]), raw], fn)
        c.cover('a file of at least the days asked for')
        r = h.call(h.fn('io', 'read_binary'), fn, start=start, stop=stop, calendar='standard', var_dict=h.dict(**dict(zip(names, text))))
        if not isinstance(r, mc.DS):
            raise Unsupported('what read_binary returns')
        t = h.idx(n, 't')
        h.prove('one value per day', eq(r.index.n, n))
        h.prove('for the days asked for', eq(r.index.at(t), add(start.m, mul(1440, t))))
        for v, name in enumerate(names):
            x = r.vars.get(name)
            h.prove('%s is delivered' % name, BT(x is not None))
            if x is not None:
                h.prove('%s of every day is word %d of its record over its scale' % (name, v), eq(x.arr.at(t), div(core.toreal(ioc.reading(f.word(add(mul(K, t), v)), kinds[v])), sc[v])))
    return u


def read_ascii(names):
    def u(h):
        c = h.c
        base(h)
        start, stop, n = span(h)
        rows = c.int('rows')
        c.assume(rows >= n)
        cols = [h.arr(rows, 'column%d' % k) for k in range(len(names))]

        def read_csv(f, sep=None, header='infer', delim_whitespace=False, names=None, **k):
            h.prove('the file asked for is read', BT(f == '/in/data_1_2'))
            if header is not None or names is None or not (delim_whitespace is True or sep in (r'\s+', ' +')):
                raise Unsupported('read_csv options')
            if set(k) - {'engine', 'dtype', 'nrows'} or k.get('engine', 'c') not in ('c', 'python') or 'dtype' in k:
                raise Unsupported('read_csv options')
            nm = list(h.it.iterate(names))
            if len(nm) != len(cols):
                raise Unsupported('another number of columns')
            m = rows
            if k.get('nrows') is not None:
                m = minimum(rows, k['nrows'])
            d = models.DataFrame({q: a.slice0(0, m) for q, a in zip(nm, cols)}, models.RangeIndex(m))
            return d
        h.it.load('pandas').ns['read_csv'] = Builtin(read_csv)
        r = h.call(h.fn('io', 'read_ascii'), '/in/data_1_2', start=start, stop=stop, calendar='standard', var_dict=h.dict(**{q: q for q in names}))
        if not isinstance(r, models.DataFrame) or not isinstance(r.index, models.DTIndex):
            raise Unsupported('what read_ascii returns')
        t = h.idx(n, 't')
        h.prove('one value per day', eq(r.index.n, n))
        h.prove('for the days asked for', eq(r.index.at(t), add(start.m, mul(1440, t))))
        for k, q in enumerate(names):
            h.prove('%s is delivered' % q, BT(q in r.cols))
            if q in r.cols:
                h.prove('%s of every day is column %d of its row' % (q, k), eq(r.cols[q].at(t), cols[k].at(t)))
    return u


def grid(h):
    c = h.c
    size = {d: c.int('size_' + d) for d in ('lat', 'lon')}
    for d in size:
        c.assume(size[d] >= 1)
    lab = {d: distinct(h, h.arr(size[d], 'dom_' + d)) for d in size}
    mask = h.arr((size['lat'], size['lon']), 'mask', False)
    m = mc.DA(mask, ('lat', 'lon'), name='mask')
    m.labels = dict(lab)
    dom = mc.DS('domain', dict(mask=m, **{d: mc.DA(lab[d], (d,), name=d) for d in lab}), size)
    return dom, size, lab, mask


class Cells(SymSeq):
    """the forcing files, any number; invariant of the loop over them at one arbitrary cell, day and file k that carries
    the cell's coordinates (the only one that does): missing before file k, the value of file k after it"""
    def __init__(self, h, n, path, check):
        SymSeq.__init__(self, n, path)
        self.h, self.check = h, check
        self.rule = self.loop

    def loop(self, it, s, env, seq):
        c, h = core.vc(), self.h
        names = assigned_names(s.body) | assigned_names([ast_target(s)])
        pre = dict(env.vars)
        dss = [v for v in pre.values() if isinstance(v, mc.DS) and v.index is not None and v.vars and all(isinstance(x, mc.DA) and x.arr is not None for x in v.vars.values())]
        if len(dss) != 1:
            raise Unsupported('supplied loop invariant does not fit: no data set to fill')
        ds = dss[0]
        arrs = {k: v.arr for k, v in ds.vars.items()}
        self.check(arrs, 0, 'before the first file', prove=True)
        j = c.int('file')
        c.assume(conj([j >= 0, cmp('<=', j, self.n)]))
        for k, a in arrs.items():
            if not a.ident:
                raise Unsupported('supplied loop invariant does not fit: view')
            x = h.arr(a.shape, 'so_far_' + k, False)
            a.buf.fn, a.buf.cache = x.buf.fn, {}
        self.check(arrs, j, '', prove=False)
        for nm in names:
            env.vars[nm] = Poison('assigned in the loop over files')
        if c.branch(c.bool('another file')):
            c.assume(cmp('<', j, self.n))
            it.assign(s.target, self.elem(j), env)
            try:
                it.block(s.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                raise Unsupported('loop over files left early')
            if any(ds.vars.get(k) is None or ds.vars[k].arr.buf is not a.buf for k, a in arrs.items()):
                raise Unsupported('supplied loop invariant does not fit: data set replaced')
            self.check(arrs, add(j, 1), 'after any further file', prove=True)
            raise PathAbort()
        c.assume(cmp('==', j, self.n))


def ast_target(s):
    import ast
    return ast.Assign([s.target], ast.Constant(0))


def process_vic(fmt, names, own):
    """any number of files, in any order, on a grid of any size; own: is there a file for the cell looked at?"""
    def u(h):
        c = h.c
        base(h)
        dom, size, lab, mask = grid(h)
        start, stop, n = span(h)
        J = c.int('n_files')
        c.assume(J >= 0)
        flat, flon = h.arr(J, 'file_lat'), h.arr(J, 'file_lon')
        I, R = z3.IntSort(), z3.RealSort()
        fv = {v: z3.Function('file_' + v, I, I, R) for v in names}
        y, x, t = h.idx(size['lat'], 'y'), h.idx(size['lon'], 'x'), h.idx(n, 't')
        # the file of this cell
        at = lambda j: land(cmp('==', flat.at(j), lab['lat'].at(y)), cmp('==', flon.at(j), lab['lon'].at(x)))
        k = c.int('k')
        if own:
            c.assume(land(rng(k, J), at(k)))
        d = base_decl(flat)
        only = lambda a: [BT(implies(land(rng(S(a[0]), J), cmp('!=', S(a[0]), k) if own else BT(True)), lnot(at(S(a[0])))))]
        h.c.on_app[d.name()] = only
        active = cmp('>', mask.at(y, x), 0)

        def path(j):
            return '/in/some_where/full_data_%s_%s' % (models.number_text(flat.at(j)), models.number_text(flon.at(j)))

        def inv(arrs, j, when, prove):
            for v in names:
                a = arrs.get(v)
                if a is None or a.ndim != 3:
                    raise Unsupported('layout of the forcing')
                e = a.at(t, y, x)
                g = S(fv[v](k.t, t.t))
                done = conj([active, cmp('>', j, k), BT(own)])
                claim = land(implies(done, eq(e, g)), implies(lnot(done), lnot(finite(e))))
                if prove:
                    h.prove('%s of the cell %s' % (v, when), claim, kind='invariant')
                else:
                    c.assume(claim)
        files = Cells(h, J, path, inv)
        conf = h.dict(**{v: v for v in names})
        params = h.dict(forcing_fmt=fmt, forcing=files, forcing_vars=conf, start=start, stop=stop, calendar='standard')

        def reader(it, fn, v):
            hd = v.get('data_handle')
            if not isinstance(hd, str) or not hd.startswith('/in/some_where/full_data_'):
                raise Unsupported('name of the file read')
            la = hd.split('_')[-2]
            v_ = c.text.get(la)
            if v_ is None:
                raise Unsupported('name of the file read')
            j = S(v_.t.arg(0))
            h.prove('the file is read under its own name', BT(hd == path(j)))
            for q, p in (('start', start), ('stop', stop)):
                h.prove('for the run\'s ' + q, eq(v[q].m, p.m) if isinstance(v.get(q), models.TS) else BT(False))
            h.prove('with the configured variables', BT(mc.same_value(v.get('var_dict'), conf) and list(v['var_dict']) == names))
            h.prove('in the run\'s calendar', BT(v.get('calendar') == 'standard'))
            ix = models.DTIndex(start.m, 1440, n)
            col = {q: Arr.new((n,), lambda i, q=q: S(fv[q](j.t, T(toint(i[0])))), 'f') for q in names}
            if fmt == 'ascii':
                return models.DataFrame(col, ix)
            return DS_('file', {q: mc.DA(a, ('time',), ix, q) for q, a in col.items()}, {'time': n}, ix)
        h.it.contracts['metsim.io.read_' + fmt] = reader
        other = 'ascii' if fmt == 'binary' else 'binary'

        def wrong(it, fn, v):
            h.prove('the reader of the configured format is used', BT(False))
            raise PathAbort()
        h.it.contracts['metsim.io.read_' + other] = wrong
        for q in ('read_netcdf', 'read_data'):
            h.it.contracts['metsim.io.' + q] = wrong
        c.cover('files for the cells of a grid')
        r = h.call(h.fn('io', 'read_met_data'), params, dom)
        if not isinstance(r, mc.DS):
            raise Unsupported('what read_met_data returns')
        h.prove('days of the run', eq(r.index.n, n))
        h.prove('each day of the run', eq(r.index.at(t), add(start.m, mul(1440, t))))
        for v in names:
            f = r.vars.get(v)
            if not isinstance(f, mc.DA) or f.dims != ('time', 'lat', 'lon'):
                raise Unsupported('layout of the forcing')
            e = f.arr.at(t, y, x)
            if own:
                h.prove('%s of an active cell is its file\'s value of the day' % v, implies(active, eq(e, S(fv[v](k.t, t.t)))))
                h.prove('%s of another cell is missing' % v, implies(lnot(active), lnot(finite(e))))
            else:
                h.prove('%s of a cell without a file is missing' % v, lnot(finite(e)))
    return u


def monthly(name, dims):
    """storm parameters of the domain, month by month"""
    def u(h):
        c = h.c
        g = mc.Grid(h, dims, 60, [])
        ioc.dataset_model(h)
        sh = tuple(g.size[d] for d in dims)
        P = h.arr((12,) + sh, 'monthly')
        g.domain.vars[name] = mc.DA(P, ('month',) + dims, name=name)
        prec = h.arr((g.n,) + sh, 'f_prec')
        g.met.vars['prec'] = mc.DA(prec, ('time',) + dims, g.index, 'prec')
        p0 = prec.copy()
        c.cover('a record')
        h.call(h.it.getattr(g.ms, 'convert_monthly_param'), name)
        t = h.idx(g.n, 't')
        x = tuple(h.idx(g.size[d], d) for d in dims)
        r = g.met.vars.get(name)
        if not isinstance(r, mc.DA) or r.dims != ('time',) + dims:
            raise Unsupported('layout of the monthly parameter')
        h.prove('%s of a day is that of its month' % name, eq(r.arr.at(t, *x), P.at(sub(models.month(g.index.at(t)), 1), *x)))
        h.prove('precipitation unchanged', eq(g.met.vars['prec'].arr.at(t, *x), p0.at(t, *x)))
    return u


def constants(names, as_text, first):
    """constant_vars of a run"""
    def u(h):
        c = h.c
        g = mc.Grid(h, ('lat', 'lon'), 60, [])
        ioc.dataset_model(h)
        sh = (g.size['lat'], g.size['lon'])
        g.domain.vars.update(elev=mc.DA(h.arr(sh, 'dom_elev'), ('lat', 'lon')), lat=mc.DA(h.arr(sh[:1], 'dom_lat'), ('lat',)), lon=mc.DA(h.arr(sh[1:], 'dom_lon'), ('lon',)))
        F_ = {k: h.arr((g.n,) + sh, 'f_' + k) for k in first}
        g.met.vars = {k: mc.DA(a, ('time', 'lat', 'lon'), g.index, k) for k, a in F_.items()}
        K = h.it.contracts
        K.pop('metsim.metsim.MetSim.met_data', None)
        K['metsim.io.read_met_data'] = lambda it, fn, v: g.met
        K['metsim.metsim.MetSim._validate_force_times'] = lambda it, fn, v: None
        g.ms.d.update(_met_data=None)
        val = {v: c.real('const_' + v) for v in names}
        conf = h.dict(**{v: models.number_text(val[v]) if as_text else val[v] for v in names})
        g.params['constant_vars'] = conf
        c.cover('a run with constants')
        m = h.it.getattr(g.ms, 'met_data')
        if not isinstance(m, mc.DS):
            raise Unsupported('met_data')
        t, y, x = h.idx(g.n, 't'), h.idx(sh[0], 'y'), h.idx(sh[1], 'x')
        for v in names:
            r = m.vars.get(v)
            h.prove('%s is there' % v, BT(isinstance(r, mc.DA)))
            if isinstance(r, mc.DA):
                h.prove('%s has a value for every day and cell' % v, BT(r.dims == ('time', 'lat', 'lon')))
                if r.dims == ('time', 'lat', 'lon'):
                    h.prove('%s is its constant everywhere' % v, eq(r.arr.at(t, y, x), val[v]))
        for k, a in F_.items():
            if k not in names:
                h.prove('%s keeps its values' % k, eq(m.vars[k].arr.at(t, y, x), a.at(t, y, x)))
        for k in ('elev', 'lat', 'lon'):
            if k not in names:
                h.prove('%s is the domain\'s' % k, BT(isinstance(m.vars.get(k), mc.DA) and m.vars[k].arr is g.domain.vars[k].arr or False))
    return u


class Stored:
    """a netCDF file as xarray opens it: variables over labelled dimensions"""
    def __init__(self, vars, labels, index=None, sizes=None):
        self.vars, self.labels, self.index = VDict(vars), dict(labels), index
        self.sizes = dict(sizes or {})

    def with_(self, **k):
        r = Stored(self.vars, self.labels, self.index, self.sizes)
        for a, v in k.items():
            setattr(r, a, v)
        return r

    def vgetitem(self, it, k):
        if isinstance(k, (list, tuple)):
            for q in k:
                if q not in self.vars:
                    raise PyRaise(KeyError, (q,))
            return self.with_(vars=VDict({q: self.vars[q] for q in k}))
        if k == 'time' and self.index is not None:
            return mc.DA(None, ('time',), self.index, 'time')
        if k in self.vars:
            return self.vars[k].view()
        if k in self.labels:
            return mc.DA(self.labels[k], (k,), name=k)
        if k in self.sizes:
            return models.RangeIndex(self.sizes[k])
        raise PyRaise(KeyError, (k,))

    def vsetitem(self, it, k, v):
        if k == 'time':
            if not isinstance(v, models.DTIndex):
                raise Unsupported('time labels')
            core.vc().safety('one label per step', cmp('==', v.n, self.index.n), ValueError)
            self.index = v
            self.vars = VDict({q: self.moved(x, v) for q, x in self.vars.items()})
            return
        if isinstance(v, mc.DA) and v.dims == ('time',) and v.arr is not None:
            core.vc().safety('one value per step', cmp('==', v.arr.shape[0], self.index.n), ValueError)
            self.vars[k] = mc.DA(v.arr, v.dims, self.index, k)
            return
        if k in self.sizes and isinstance(v, Arr):
            core.vc().safety('one label per step of ' + k, cmp('==', v.shape[0], self.sizes[k]), ValueError)
            self.labels[k] = v
            return
        raise Unsupported('store into an opened data set')

    def moved(self, x, index):
        r = mc.DA(x.arr, x.dims, index if 'time' in x.dims else None, x.name, x.attrs)
        r.labels = x.labels
        return r

    def vseq(self, it):
        return list(self.vars)

    def vkeys(self, it):
        return list(self.vars)

    def vcontains(self, it, k):
        return k in self.vars or k in self.labels

    def vattr(self, it, n):
        if n in ('dims', 'sizes'):
            return VDict(self.sizes)
        if n == 'coords':
            d = {k: mc.Ext('coord ' + k) for k in self.labels}
            if self.index is not None:
                d['time'] = mc.Ext('coord time')
            return VDict(d)
        if n == 'indexes':
            return VDict({'time': self.index} if self.index is not None else {})
        if n in ('data_vars', 'variables'):
            return VDict(self.vars)
        if n == 'keys':
            return Builtin(lambda: VList(self.vars))
        if n in ('load', 'compute', 'copy'):
            return Builtin(lambda *a, **k: self.with_())
        if n == 'rename':
            def rename(m=None, **k):
                m = dict(m or {}, **k)
                for q in m:
                    if q not in self.vars and q not in self.labels and q not in self.sizes:
                        raise PyRaise(ValueError, (q,))
                if any(q not in self.vars for q in m):
                    raise Unsupported('renamed coordinate')
                out = [m.get(q, q) for q in self.vars]
                if len(set(out)) != len(out):
                    raise PyRaise(ValueError, ('conflicting names',))
                return self.with_(vars=VDict({m.get(q, q): x for q, x in self.vars.items()}))
            return Builtin(rename)
        if n == 'sel':
            return Builtin(self.sel)
        if n in self.vars:
            return self.vgetitem(it, n)
        return NotImplemented

    def sel(self, indexers=None, method=None, **k):
        k = dict(indexers or {}, **k)
        if method is not None:
            raise Unsupported('inexact selection')
        c = core.vc()
        take, labels, sizes, index = {}, dict(self.labels), dict(self.sizes), self.index
        for d, v in k.items():
            if d not in self.sizes:
                raise PyRaise(KeyError, (d,))
            if d == 'time':
                if not isinstance(v, slice) or v.step is not None or not all(x is None or isinstance(x, models.TS) for x in (v.start, v.stop)):
                    raise Unsupported('selection of days')
                lo, hi = self.index.loc_slice(v.start, v.stop)
                if not c.entails(cmp('<=', lo, hi)):
                    hi = maximum(lo, hi)
                index = models.DTIndex(self.index.at(lo), self.index.step, sub(hi, lo))
                sizes['time'] = index.n
                take[d] = (index.n, lambda i, lo=lo: add(lo, i))
                continue
            v = v.arr if isinstance(v, mc.DA) else v
            if d not in self.labels or not isinstance(v, Arr) or v.ndim != 1:
                raise Unsupported('selection along ' + d)
            own = self.labels[d]
            I = z3.IntSort()
            f = z3.Function(c.fresh_name('where_' + d), I, I)
            nm = f.name()
            c.on_app[nm] = lambda a, own=own, v=v, f=f: [BT(implies(rng(S(a[0]), v.shape[0]), land(rng(S(f(a[0])), own.shape[0]), cmp('==', own.at(S(f(a[0]))), v.at(S(a[0]))))))]
            c.assumed.add('every label asked for is in the file')
            labels[d], sizes[d] = v, v.shape[0]
            take[d] = (v.shape[0], lambda i, f=f: S(f(T(toint(i)))))
        out = {}
        for q, x in self.vars.items():
            rd = x.arr.reader()
            sh = tuple(take[d][0] if d in take else n for d, n in zip(x.dims, x.arr.shape))
            a = Arr.new(sh, lambda ix, rd=rd, x=x: rd(tuple(take[d][1](i) if d in take else i for d, i in zip(x.dims, ix))), x.arr.dtype)
            r = mc.DA(a, x.dims, index if 'time' in x.dims else None, q)
            r.labels = {d: labels[d] for d in x.dims if d in labels}
            out[q] = r
        return Stored(VDict(out), labels, index, sizes)


def stored(h, names, dims=('lat', 'lon'), offset=True, coords=True, cf=False):
    """a file of any size; days stamped at any second of the day"""
    c = h.c
    sz = {d: c.int('file_' + d) for d in dims}
    for d in dims:
        c.assume(sz[d] >= 1)
    nt = c.int('file_days')
    c.assume(nt >= 1)
    lab = {d: distinct(h, h.arr(sz[d], 'file_lab_' + d)) for d in dims} if coords else {}
    d0 = c.int('file_first_day')
    if offset:
        o = c.int('second_of_the_day')
        c.assume(rng(o, 86400))
        start = add(mul(1440, d0), div(core.toreal(o), 60))
    else:
        start = mul(1440, d0)
    index = models.DTIndex(start, 1440, nt)
    if cf:
        plain = index
        index = CF(plain)
    arrs = {k: h.arr((nt,) + tuple(sz[d] for d in dims), 'file_' + k) for k in names}
    vs = {}
    for k, a in arrs.items():
        r = mc.DA(a, ('time',) + dims, index, k)
        r.labels = dict(lab)
        vs[k] = r
    return Stored(vs, lab, index, dict(sz, time=nt)), arrs, lab, d0, nt


class CF:
    """xarray's own kind of time axis"""
    cf = True

    def __init__(self, plain):
        self.plain, self.n = plain, plain.n

    def vattr(self, it, n):
        if n == 'to_datetimeindex':
            return Builtin(lambda *a, **k: self.plain)
        raise Unsupported('CFTimeIndex.' + n)


def netcdf(entry, table, dims=('lat', 'lon'), offset=True, cf=False, wild=False):
    """file variables under their configured names, for the labels of the domain and the days asked for"""
    def u(h):
        c = h.c
        base(h)
        inp = entry in ('read_met_data', 'read_data')
        ds, arrs, flab, d0, nt = stored(h, list(table) + ['unused'], dims, offset, cf=cf)
        size = {d: c.int('size_' + d) for d in dims}
        for d in dims:
            c.assume(size[d] >= 1)
        lab = {d: distinct(h, h.arr(size[d], 'dom_' + d)) for d in dims}
        dom = mc.DS('domain', {d: mc.DA(lab[d], (d,), name=d) for d in dims}, size)
        path = '/in/forcing_%s.nc' % ('*' if wild else '1')
        opened = []

        def opener(many):
            def f(hd, *a, **k):
                if a or k:
                    raise Unsupported('options of open_dataset')
                opened.append(hd)
                h.prove('the configured file is opened', BT(hd == path))
                h.prove('a pattern is opened as many files', BT(many or '*' not in hd))
                return ds
            return Builtin(f)
        X = h.it.modeled['xarray'].ns
        X['open_dataset'], X['open_mfdataset'] = opener(False), opener(True)
        a_, b_ = c.int('start_day'), c.int('stop_day')
        c.assume(conj([cmp('<=', d0, a_), cmp('<=', a_, b_), cmp('<', b_, add(d0, nt))]))
        start, stop = models.TS(mul(1440, a_)), models.TS(mul(1440, b_))
        conf = h.dict(**table)
        o_ = models.TS(mul(1440, c.int('other')))
        if entry == 'read_state':
            p = h.dict(state=path, state_start=start, state_stop=stop, start=o_, stop=o_, calendar='standard', state_vars=conf, forcing_vars=h.dict(q='q'), domain_vars=h.dict(q='q'))
            r = h.call(h.fn('io', 'read_state'), p, dom)
        elif entry == 'read_met_data':
            p = h.dict(forcing=path, forcing_fmt='netcdf', start=start, stop=stop, state_start=o_, state_stop=o_, calendar='standard', forcing_vars=conf, state_vars=h.dict(q='q'), domain_vars=h.dict(q='q'))
            r = h.call(h.fn('io', 'read_met_data'), p, dom)
        elif entry == 'read_data':
            p = h.dict(forcing=ds, forcing_fmt='data', start=start, stop=stop, calendar='standard', forcing_vars=conf)
            r = h.call(h.fn('io', 'read_met_data'), p, dom)
        else:
            raise Unsupported(entry)
        if entry != 'read_data':
            h.prove('the file is opened once', BT(len(opened) == 1))
        if not isinstance(r, Stored):
            raise Unsupported('what %s returns' % entry)
        # an element of the file: its day, its labels
        kf = h.idx(nt, 'kf')
        ixf = tuple(h.idx(ds.sizes[d], 'f_' + d) for d in dims)
        ix = tuple(h.idx(size[d], 'x_' + d) for d in dims)
        c.assume(conj([cmp('==', flab[d].at(i), lab[d].at(j)) for d, i, j in zip(dims, ixf, ix)]))
        day = add(d0, kf)
        c.assume(land(cmp('>=', day, a_), cmp('<=', day, b_)))
        c.cover('a day and cell of both')
        t = sub(day, a_)
        h.prove('one value per day of the window', eq(r.index.n, add(sub(b_, a_), 1)))
        h.prove('days of the window', eq(r.index.at(t), mul(1440, day)))
        for fn_, q in table.items():
            x = r.vars.get(q)
            h.prove('%s is delivered' % q, BT(x is not None))
            if x is None:
                continue
            if x.dims != ('time',) + dims:
                raise Unsupported('layout of the forcing')
            h.prove('%s of a cell and day is the value of %s there' % (q, fn_), eq(x.arr.at(t, *ix), arrs[fn_].at(kf, *ixf)))
        h.prove('nothing else is delivered', BT(set(r.vars) <= set(table.values()) | {'day_of_year'}))
        if 'day_of_year' in r.vars:
            h.prove('day of year of each day', eq(r.vars['day_of_year'].arr.at(t), models.doy(mul(1440, day))))
    return u


def domain(table, coords):
    def u(h):
        c = h.c
        base(h)
        dims = ('lat', 'lon')
        sz = {d: c.int('file_' + d) for d in dims}
        for d in dims:
            c.assume(sz[d] >= 1)
        lab = {d: distinct(h, h.arr(sz[d], 'file_lab_' + d)) for d in dims} if coords else {}
        arrs = {k: h.arr((sz['lat'], sz['lon']), 'file_' + k, False) for k in list(table) + ['unused']}
        ds = Stored({k: mc.DA(a, dims, None, k) for k, a in arrs.items()}, lab, None, sz)
        X = h.it.modeled['xarray'].ns

        def opener(hd, *a, **k):
            h.prove('the configured file is opened', BT(hd == '/in/domain.nc'))
            return ds
        X['open_dataset'] = X['open_mfdataset'] = Builtin(opener)
        r = h.call(h.fn('io', 'read_domain'), h.dict(domain='/in/domain.nc', calendar='standard', domain_vars=h.dict(**table), forcing_vars=h.dict(q='q'), start=models.TS(c.int('a')), stop=models.TS(c.int('b'))))
        if not isinstance(r, Stored):
            raise Unsupported('what read_domain returns')
        ix = tuple(h.idx(sz[d], d) for d in dims)
        for fn_, q in table.items():
            x = r.vars.get(q)
            h.prove('%s is delivered' % q, BT(x is not None and x.dims == dims))
            if x is not None:
                h.prove('%s of a cell is the value of %s there' % (q, fn_), same(x.arr.at(*ix), arrs[fn_].at(*ix)))
        for d, i in zip(dims, ix):
            h.prove('%s has coordinates' % d, BT(d in r.labels))
            if d in r.labels:
                h.prove('coordinates of ' + d, eq(r.labels[d].at(i), lab[d].at(i) if coords else i))
    return u


def units(tier):
    out = []
    nc = {'Prec': 'prec', 'Tmax': 't_max', 'Tmin': 't_min', 'w10': 'wind'}
    swap = {'t_min': 't_max', 't_max': 't_min', 'prec': 'prec'}
    for q, tb in (('renamed', nc), ('swapped', swap)):
        for e in ('read_met_data', 'read_state', 'read_data'):
            out.append(('C18.netcdf.%s.%s' % (e, q), netcdf(e, tb, offset=e != 'read_data')))
    out.append(('C18.netcdf.pattern', netcdf('read_met_data', nc, wild=True)))
    out.append(('C18.netcdf.cftime', netcdf('read_met_data', nc, cf=True)))
    out.append(('C18.netcdf.midnight', netcdf('read_met_data', nc, offset=False)))
    out.append(('C18.netcdf.hru', netcdf('read_met_data', nc, dims=('hru',))))
    for co in (True, False):
        out.append(('C18.domain.%s' % ('labelled' if co else 'bare'), domain({'land': 'mask', 'z': 'elev', 'latitude': 'lat_of'}, co)))
    for K in range(1, 9):
        pats = [('unsigned', 'signed', 'signed', 'unsigned') * 2, ('signed',) * 8, ('unsigned',) * 8]
        for i, p in enumerate(pats):
            out.append(('C18.binary.K%d.%s' % (K, i), read_binary(ALL[:K], p[:K])))
    out.append(('C18.binary.order', read_binary(['wind', 't_min', 'prec', 't_max'], ('signed', 'signed', 'unsigned', 'signed'))))
    for K in (3, 4, 8):
        out.append(('C18.ascii.K%d' % K, read_ascii(ALL[:K])))
    out.append(('C18.ascii.order', read_ascii(['wind', 't_min', 'prec', 't_max'])))
    for fmt in ('binary', 'ascii'):
        for own in (True, False):
            out.append(('C18.cells.%s.%s' % (fmt, 'own' if own else 'none'), process_vic(fmt, ['prec', 't_max', 't_min', 'wind'], own)))
    for nm in ('dur', 't_pk'):
        for d in (('lat', 'lon'), ('hru',)):
            out.append(('C18.monthly.%s.%s' % (nm, '-'.join(d)), monthly(nm, d)))
    for names in (['wind'], ['wind', 'extra'], ['prec', 'wind']):
        for txt in (True, False):
            out.append(('C18.constants.%s.%s' % ('-'.join(names), 'text' if txt else 'number'), constants(names, txt, ['t_max', 'prec', 't_min', 'wind'])))
    return out
