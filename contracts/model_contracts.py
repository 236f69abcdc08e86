"""MetSim instances: the surroundings (dask, logging, files, operating system) as external objects."""
import os.path as _p
from .common import *
from pyvc.core import Unsupported, PyRaise
from pyvc.interp import Builtin, VList, VDict, VSet, Module, Inst, Cls, Func


class Ext:
    """object of a library that never touches the program's own data"""
    def __init__(self, name):
        self.name = name

    def vattr(self, it, n):
        return Ext(self.name + '.' + n)

    def vcall(self, it, *a, **k):
        core.vc().assumed.add('%s leaves the program\'s own objects alone' % self.name.split('(')[0])
        return Ext(self.name + '(..)')

    def vsetattr(self, it, n, v):
        pass

    def venter(self, it):
        return self

    def vexit(self, it):
        pass

    def vtruth(self, it):
        return core.vc().branch(S(core.vc().bool('truth of ' + self.name).t))

    def vcmp(self, it, op, o):
        if op in ('==', '!=') and isinstance(o, (int, str)):
            return self.vtruth(it)
        return NotImplemented

    def __repr__(self):
        return '<%s>' % self.name


def module(name, **ns):
    m = Module(name)
    m.ns.update(ns)
    m.dynamic = lambda n: Ext(name + '.' + n)
    return m


class Lk:
    """a lock: parts are the elementary locks it is made of; it.held lists the locks held, it.lock_events what happened"""
    def __init__(self, parts):
        self.parts = tuple(parts)

    def note(self, it, what):
        held = it.__dict__.setdefault('held', [])
        ev = it.__dict__.setdefault('lock_events', [])
        if core.vc().loops:
            raise Unsupported('lock taken in a summarised loop')
        if what == 'acquire':
            ev.append((what, self, tuple(held)))
            held.append(self)
        else:
            if self not in held:
                raise PyRaise(RuntimeError, ('release unlocked lock',))
            held.remove(self)
            ev.append((what, self, tuple(held)))

    def venter(self, it):
        self.note(it, 'acquire')
        return self

    def vexit(self, it):
        self.note(it, 'release')

    def vattr(self, it, n):
        if n == 'acquire':
            def acq(*a, **k):
                self.note(it, 'acquire')
                return True
            return Builtin(acq)
        if n == 'release':
            return Builtin(lambda: self.note(it, 'release'))
        return NotImplemented

    def vtruth(self, it):
        return True

    def __repr__(self):
        return '<lock %s>' % (self.parts,)


def lock_modules(h):
    """locks of xarray, dask, threading and multiprocessing; an elementary lock is (kind, name)"""
    M, n = h.it.modeled, [0]

    def fresh(kind):
        def f(token=None, *a):
            n[0] += 1
            return Lk([(kind, n[0] if token is None else 'token ' + str(token))])
        return Builtin(f)

    def combine(ls):
        ls = [x for x in ls if x is not None]
        if not all(isinstance(x, Lk) for x in ls):
            raise Unsupported('combine_locks')
        return ls[0] if len(ls) == 1 else Lk([p for x in ls for p in x.parts])

    def wl(key):
        if not isinstance(key, str):
            raise Unsupported('get_write_lock')
        return Lk([('write', key)])
    lib = Lk([('library', 'netcdf')])
    M['xarray.backends.locks'] = module('xarray.backends.locks', NETCDFC_LOCK=lib, HDF5_LOCK=Lk([('library', 'hdf5')]), get_write_lock=Builtin(wl), combine_locks=Builtin(combine),
                                        SerializableLock=fresh('process'))
    M['dask.utils'] = module('dask.utils', SerializableLock=fresh('process'))
    M['threading'] = module('threading', Lock=fresh('thread'), RLock=fresh('thread'))
    M['multiprocessing'] = module('multiprocessing', Lock=fresh('inherit'), RLock=fresh('inherit'), Manager=Builtin(lambda: module('manager', Lock=fresh('manager'), RLock=fresh('manager'))))


def strings(name, f):
    def g(*a):
        if not all(isinstance(x, str) for x in a):
            raise Unsupported(name + ' of an arbitrary string')
        return f(*a)
    return Builtin(g, name)


def surroundings(h, files=True):
    """library models every contract on MetSim needs"""
    M = h.it.modeled
    M['logging'] = module('logging', DEBUG=10, INFO=20, WARNING=30, ERROR=40)
    M['warnings'] = module('warnings')
    M['time'] = module('time', time=Builtin(lambda: Ext('time')), ctime=Builtin(lambda *a: 'NOW'))
    M['getpass'] = module('getpass', getuser=Builtin(lambda: 'USER'))
    M['sys'] = module('sys', argv=VList())
    for n in ('dask', 'dask.diagnostics', 'distributed', 'dask.config'):
        M[n] = module(n)
    lock_modules(h)
    path = module('os.path', abspath=strings('abspath', lambda a: a if a.startswith('/') else '/cwd/' + a), join=strings('join', _p.join),
                  basename=strings('basename', _p.basename), dirname=strings('dirname', _p.dirname), splitext=strings('splitext', _p.splitext))
    M['os'] = module('os', path=path)
    M['os.path'] = path
    M['netCDF4'] = module('netCDF4')
    M['cftime'] = module('cftime')
    M['xarray'] = module('xarray')
    M['json'] = module('json')
    M['datetime'] = module('datetime')
    M['collections.abc'] = module('collections.abc', Iterable=models.TypeTok('Iterable', lambda x: isinstance(x, (list, tuple, dict, set, str))))


def snapshot(x, depth=0):
    """plain copy of a configuration value"""
    if isinstance(x, dict):
        return {k: snapshot(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapshot(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    return x


def same_value(a, b):
    """structural equality; arbitrary values are equal when they are the same symbol"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, S) or isinstance(b, S):
        if isinstance(a, S) and isinstance(b, S):
            return a.t.eq(b.t) or core.vc().entails(eq(a, b))
        return False
    if isinstance(a, (models.TS, models.TD)) and type(a) is type(b):
        return same_value(a.m, b.m)
    if type(a) in (str, int, bool, float, F, type(None)) and type(b) in (str, int, bool, float, F, type(None)):
        return a == b and isinstance(a, bool) == isinstance(b, bool)
    return a is b


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s/%s' % (path, k)
            d = diff(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return ''
    return '' if same_value(a, b) else path


class Tables:
    """the module's and class's own tables: nothing may change them"""
    def __init__(self, h):
        self.h = h
        self.cls = h.fn('metsim', 'MetSim')
        if not isinstance(self.cls, Cls):
            raise Unsupported('MetSim')
        self.mod = h.it.load('metsim.metsim')
        self.objs = {}
        for n, v in list(self.mod.ns.items()):
            if isinstance(v, (dict, list, set)) and not n.startswith('__'):
                self.objs[n] = v
        for n, v in self.cls.ns.items():
            if isinstance(v, (dict, list, set)):
                self.objs['MetSim.' + n] = v
        self.at_start = {k: snapshot(v) for k, v in self.objs.items()}

    def unchanged(self, when):
        for k, v in sorted(self.objs.items()):
            d = diff(self.at_start[k], snapshot(v))
            self.h.prove('%s unchanged %s' % (k, when), BT(d == ''), model={'entry': d} if d else None) if False else \
                self.h.prove('%s unchanged %s%s' % (k, when, d and ' (entry %s)' % d), BT(d == ''))


def build(h, params, **k):
    """MetSim(params): what the constructor does to the instance"""
    h.it.contracts['metsim.metsim.MetSim._get_output_times'] = lambda it, fn, v: VList([Ext('times')])
    return h.call(h.fn('metsim', 'MetSim'), params, **k)


# ---------------------------------------------------------------------- xarray, netCDF4

class DA:
    """DataArray: named dimensions over an array; `time` carries its labels"""
    def __init__(self, arr, dims, index=None, name=None, attrs=None, tag=None):
        self.arr, self.dims, self.index, self.name = arr, tuple(dims), index, name
        self.attrs = attrs if attrs is not None else VDict()
        self.encoding = VDict()
        self.tag = tag
        self.labels = {}          # dimension -> its coordinate values

    def vattr(self, it, n):
        if n in ('values', 'data'):
            return self.arr if self.arr is not None else self.index
        if n == 'dims':
            return self.dims
        if n == 'shape':
            return tuple(self.arr.shape) if self.arr is not None else (self.index.n,)
        if n == 'name':
            return self.name
        if n == 'attrs':
            return self.attrs
        if n == 'encoding':
            return self.encoding
        if n == 'dtype':
            return Ext('dtype')
        if n == 'coords':
            return VDict({d: Ext('coord ' + d) for d in self.dims if d != 'time'})
        if n in ('load', 'compute'):
            return Builtin(lambda *a, **k: self)
        if n == 'copy':
            def copy(*a, **k):
                r = DA(self.arr.copy(), self.dims, self.index, self.name, VDict(self.attrs))
                r.labels = self.labels
                return r
            return Builtin(copy)
        if n == 'close':
            return Builtin(lambda: None)
        if n == 'loc':
            return LocDA(self)
        if n == 'transpose':
            def tr(*d):
                if tuple(d) != self.dims:
                    raise Unsupported('transpose')
                return self
            return Builtin(tr)
        if n == 'rolling':
            def rol(min_periods=None, center=False, **k):
                if set(k) != {'time'} or self.dims[0] != 'time' or center or min_periods not in (None, k['time']):
                    raise Unsupported('rolling')
                return Roll(self, k['time'])
            return Builtin(rol)
        if n in ('any', 'all', 'min', 'max', 'sum', 'mean') and self.arr is not None:
            def red(*a, **k):
                if a or k:
                    raise Unsupported('reduction along a dimension')
                return it.call(models.attribute(it, self.arr, n), [], {})
            return Builtin(red)
        if n in ('drop', 'drop_sel'):
            def drop(labels=None, dim=None, **k):
                if labels is None and set(k) == {'time'}:
                    labels, dim = k['time'], 'time'
                if dim != 'time' or self.dims[0] != 'time':
                    raise Unsupported('drop')
                return self.without(it, labels)
            return Builtin(drop)
        if n == 'dt' and self.arr is None:
            return Dt(self)
        if n == 'isel':
            def isel(**k):
                ix, dims = [], []
                if self.arr is None and self.dims == ('time',):
                    w = k.get('time')
                    w = w.arr if isinstance(w, DA) else w
                    if set(k) != {'time'} or not isinstance(w, Arr) or w.dtype != 'b' or w.ndim != 1:
                        raise Unsupported('selection of time labels')
                    core.vc().safety('one mark per step', cmp('==', w.shape[0], self.index.n), IndexError)
                    return DA(None, ('time',), Marked(self.index, w), 'time')
                if set(k) - set(self.dims):
                    raise PyRaise(ValueError, ('isel',))
                for d in self.dims:
                    v = k.get(d, slice(None))
                    if isinstance(v, DA):
                        v = v.arr
                    ix.append(v)
                    if isinstance(v, slice):
                        dims.append(d)
                    elif not models.is_scalar(v):
                        raise Unsupported('isel with an array')
                index = self.index.vgetitem(it, k.get('time', slice(None))) if self.index is not None and 'time' in dims else None
                return DA(self.arr.get(tuple(ix)), dims, index, self.name)
            return Builtin(isel)
        if n == 'sel':
            def sel(indexers=None, **k):
                k = dict(indexers or {}, **k)
                if k and set(k) <= set(self.labels) and all(models.is_scalar(v) for v in k.values()):
                    ix = self.positions(k)
                    return DA(self.arr.get(tuple(ix.get(d, slice(None)) for d in self.dims)), [d for d in self.dims if d not in ix], self.index if 'time' not in ix else None)
                if set(k) != {'time'} or self.index is None or self.dims[0] != 'time':
                    raise Unsupported('sel')
                v = k['time']
                if isinstance(v, models.DTIndex):
                    v = slice(v.vgetitem(it, 0), v.vgetitem(it, -1))
                if not isinstance(v, slice) or v.step is not None:
                    raise Unsupported('sel')
                lo, hi = self.index.loc_slice(v.start, v.stop)
                return DA(self.arr.slice0(lo, hi), self.dims, self.index.vgetitem(it, slice(lo, hi)), self.name)
            return Builtin(sel)
        return NotImplemented

    def vsetattr(self, it, n, v):
        if n == 'attrs':
            self.attrs = v
        elif n == 'values' and self.arr is not None:
            it.setitem(self.arr, slice(None), v)
        else:
            raise Unsupported('DataArray.%s' % n)

    def view(self):
        v = DA(self.arr, self.dims, self.index, self.name, self.attrs, self.tag)
        v.encoding, v.labels = self.encoding, self.labels
        return v

    def positions(self, k):
        from .io_contracts import position
        out = {}
        for d, v in k.items():
            if d not in self.dims or d not in self.labels:
                raise Unsupported('selection by label along ' + d)
            found, i = position(self.labels[d], core.toreal(v))
            core.vc().safety('label of %s is there' % d, found, KeyError)
            out[d] = i
        return out

    def aligned(self, o):
        if isinstance(o, DA):
            if o.dims != self.dims or not (o.index is self.index or o.index is not None and self.index is not None and models.same_index(self.index, o.index)):
                raise Unsupported('arithmetic of differently labelled fields')
            return o.arr
        return o

    def vbin(self, it, op, o, refl):
        if not isinstance(o, DA) and not models.is_scalar(o):
            return NotImplemented
        b = self.aligned(o)
        r = it.binop(op, b, self.arr) if refl else it.binop(op, self.arr, b)
        return DA(r, self.dims, self.index)

    def vcmp(self, it, op, o):
        if self.arr is None or not isinstance(o, DA) and not models.is_scalar(o):
            return NotImplemented
        return DA(it.cmpop(op, self.arr, self.aligned(o)), self.dims, self.index)

    def vneg(self, it):
        return DA(it.binop('*', self.arr, -1), self.dims, self.index)

    def along(self, it, k):
        """rows of the time axis"""
        return DA(self.arr.get((k,)), self.dims, self.index.vgetitem(it, k), self.name)

    def without(self, it, labels):
        if not isinstance(labels, models.DTIndex) or self.index is None or not models.same_index(labels, models.DTIndex(self.index.start, self.index.step, labels.n)):
            raise Unsupported('labels dropped inside the axis')
        core.vc().safety('dropped labels are there', cmp('<=', labels.n, self.index.n), KeyError)
        return self.along(it, slice(labels.n, None))

    def key(self, k):
        if isinstance(k, dict):
            if set(k) - set(self.dims):
                raise PyRaise(KeyError, (tuple(k),))
            return tuple(k.get(d, slice(None)) for d in self.dims)
        return k

    def vgetitem(self, it, k):
        if self.arr is None:
            return self.index.vgetitem(it, k)
        if isinstance(k, dict):
            return it.call(self.vattr(it, 'isel'), [], dict(k))
        return DA(self.arr.get(it.arr_key(k)), [], None)

    def vsetitem(self, it, k, v):
        if k == 'time' and 'time' in self.dims:
            v = v.index if isinstance(v, DA) and v.arr is None else v
            if not isinstance(v, models.DTIndex):
                raise Unsupported('time labels')
            core.vc().safety('one label per step', cmp('==', v.n, self.arr.shape[self.dims.index('time')]), ValueError)
            self.index = v
            return
        if isinstance(v, DA):
            v = v.arr
        it.setitem(self.arr, self.key(k), v)

    def varr(self, it):
        return self.arr

    def vlen(self):
        return self.arr.shape[0] if self.arr is not None else self.index.n


class Marked:
    """labels of the marked steps of a time axis"""
    def __init__(self, index, mask):
        self.index, self.mask = index, mask


class LocDA:
    def __init__(self, o):
        self.o = o

    def vsetitem(self, it, k, v):
        o = self.o
        if not isinstance(k, dict) or set(k) - set(o.dims):
            raise Unsupported('.loc key')
        pos = o.positions({d: x for d, x in k.items() if d != 'time' and models.is_scalar(x)})
        marks = None
        for d, x in k.items():
            if d in pos:
                continue
            x = x.index if isinstance(x, DA) and x.arr is None else x
            if d != 'time' or not isinstance(x, Marked) or o.index is None or not models.same_index(x.index, o.index):
                raise Unsupported('.loc key along ' + d)
            marks = x.mask
        left = [d for d in o.dims if d not in pos and not (d == 'time' and marks is not None)]
        if isinstance(v, DA):
            if v.arr is None:
                raise Unsupported('.loc store of labels')
            if not set(v.dims) <= set(left):
                raise PyRaise(ValueError, ('dimensions of the stored field',))
            if 'time' in v.dims and v.index is not None and not models.same_index(v.index, o.index):
                raise Unsupported('.loc store of other days')
            vd, a = v.dims, v.arr
        elif models.is_scalar(v):
            vd, a = (), v
        else:
            a = models.to_arr(it, v)
            if a.ndim > len(left):
                raise PyRaise(ValueError, ('shape of the stored value',))
            vd = tuple(left[len(left) - a.ndim:])
        if isinstance(a, Arr):
            for d, n in zip(vd, a.shape):
                core.vc().safety('stored field has the length of ' + d, cmp('==', n, o.arr.shape[o.dims.index(d)]), ValueError)
            rd = a.reader()
            val = lambda ix: rd(tuple(ix[o.dims.index(d)] for d in vd))
        else:
            val = lambda ix: a
        rm = marks.reader() if marks is not None else None
        dims = o.dims

        def cv(ix):
            w = conj([cmp('==', ix[dims.index(d)], i) for d, i in pos.items()] + ([rm((ix[dims.index('time')],))] if rm else []))
            return w, (lambda: val(ix))
        if not o.arr.ident:
            raise Unsupported('.loc store into a view')
        o.arr.buf.write(cv)


class Roll:
    def __init__(self, o, w):
        self.o, self.w = o, w

    def vattr(self, it, n):
        if n in ('mean', 'sum'):
            return Builtin(lambda: DA(models.rolling(self.o.arr, self.w, n), self.o.dims, self.o.index))
        return NotImplemented


class Dt:
    def __init__(self, o):
        self.o = o

    def vattr(self, it, n):
        return DA(it.getattr(self.o.index, n), ('time',), self.o.index)


class DS:
    """Dataset"""
    def __init__(self, name, vars, dims, index=None):
        self.name, self.vars, self.sizes, self.index = name, dict(vars), dict(dims), index
        self.time = DA(None, ('time',), index, 'time') if index is not None else None

    def vgetitem(self, it, k):
        if isinstance(k, list):
            return DS(self.name, {x: self.vgetitem(it, x) for x in k}, self.sizes, self.index)
        if k == 'time' and self.time is not None:
            return self.time
        if k in self.vars:
            v = self.vars[k]
            return v.view() if isinstance(v, DA) else v
        if k in self.sizes:
            return Ext('coord ' + k)
        raise PyRaise(KeyError, (k,))

    def vsetitem(self, it, k, v):
        if not isinstance(k, str) or not isinstance(v, DA):
            raise Unsupported('Dataset store')
        if self.index is not None and v.index is not None and v.arr is not None and not models.same_index(self.index, v.index):
            raise Unsupported('field with other time labels stored in a data set')
        if core.vc().loops:
            raise Unsupported('field stored in a summarised loop')
        self.vars[k] = v

    def vcontains(self, it, k):
        return k in self.vars or k in self.sizes or k == 'time'

    def vseq(self, it):
        return list(self.vars)

    def vattr(self, it, n):
        if n in ('dims', 'sizes'):
            return VDict(self.sizes)
        if n == 'variables' or n == 'data_vars':
            return VDict(self.vars)
        if n == 'isel':
            return Builtin(lambda **k: Picked(self, k))
        if n in ('load', 'compute'):
            return Builtin(lambda *a, **k: self)
        if n in ('close',):
            return Builtin(lambda: None)
        if n in self.vars or n == 'time':
            return self.vgetitem(it, n)
        return NotImplemented


class Picked:
    """what .isel took out of a data set"""
    def __init__(self, ds, where):
        self.ds, self.where = ds, dict(where)

    def vattr(self, it, n):
        if n in ('load', 'compute', 'copy'):
            return Builtin(lambda *a, **k: self)
        raise Unsupported('attribute %s of a selection' % n)


def xarray_model(h):
    def dataset(*a, **k):
        if a or set(k) - {'coords', 'attrs'}:
            raise Unsupported('xr.Dataset')
        co = k.get('coords', {})
        t = co.get('time')
        if not isinstance(t, models.DTIndex):
            raise Unsupported('xr.Dataset without a time axis')
        return DS('output', {}, {'time': t.n}, t)

    def array(data=None, coords=None, dims=None, name=None, attrs=None, **k):
        if k or not isinstance(data, Arr) or dims is None:
            raise Unsupported('xr.DataArray')
        t = (coords or {}).get('time')
        at = VDict(attrs) if attrs is not None else None
        r = DA(data, dims, t if isinstance(t, models.DTIndex) else None, name, at)
        if len(r.dims) != data.ndim:
            raise PyRaise(ValueError, ('dimensions of a DataArray',))
        for d, x in (coords or {}).items():
            if d in r.dims and isinstance(x, DA) and x.dims == (d,) and x.arr is not None:
                core.vc().safety('one label per step of ' + d, cmp('==', x.arr.shape[0], data.shape[r.dims.index(d)]), ValueError)
                r.labels[d] = x.arr
        return r
    def xconcat(objs, dim=None, **k):
        xs = list(h.it.iterate(objs))
        if k or dim != 'time' or not all(isinstance(x, DA) and x.dims == xs[0].dims and x.dims[0] == 'time' and x.index is not None for x in xs):
            raise Unsupported('xr.concat')
        a, index = xs[0], xs[0].index
        for b in xs[1:]:
            if not models.dim_eq(add(index.at(index.n), 0), b.index.start) or not models.dim_eq(index.step, b.index.step):
                raise Unsupported('concatenation of records with a gap')
            index = models.DTIndex(index.start, index.step, add(index.n, b.index.n))
        return DA(models.concat(h.it, VList([x.arr for x in xs]), 0), a.dims, index)
    m = module('xarray', concat=Builtin(xconcat), Dataset=Builtin(dataset), DataArray=Builtin(array))
    h.it.modeled['xarray'] = m


class FileVar:
    def __init__(self, f, name, dims):
        self.f, self.name, self.dims = f, name, tuple(dims)
        self.attrs, self.writes = {}, []

    def vattr(self, it, n):
        if n == 'dimensions':
            return self.dims
        if n in self.attrs:
            return self.attrs[n]
        return NotImplemented

    def vsetattr(self, it, n, v):
        self.attrs[n] = v

    def vsetitem(self, it, k, v):
        if core.vc().loops:
            raise Unsupported('file written in a summarised loop')
        self.writes.append((k, v))


class File:
    """netCDF4.Dataset"""
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.vars, self.attrs, self.dims = VDict(), {}, {}

    def venter(self, it):
        return self

    def vexit(self, it):
        pass

    def vattr(self, it, n):
        if n == 'variables':
            return self.vars
        if n == 'createDimension':
            def f(d, size=None):
                self.dims[d] = size
            return Builtin(f)
        if n == 'createVariable':
            def g(name, dtype, dims=(), **k):
                v = FileVar(self, name, dims)
                v.dtype, v.kw = dtype, k
                self.vars[name] = v
                return v
            return Builtin(g)
        if n in ('close', 'sync'):
            return Builtin(lambda: None)
        return NotImplemented

    def vsetattr(self, it, n, v):
        self.attrs[n] = v

    def vgetitem(self, it, k):
        return self.vars[k]


class Encoded:
    """date2num of a time axis"""
    def __init__(self, times, units, calendar):
        self.times, self.units, self.calendar = times, units, calendar


class Grid:
    """a MetSim instance on a grid of any size"""
    def __init__(self, h, dims=('lat', 'lon'), ts=60, outs=None, params=None, n_dom=None):
        c = self.c = h.c
        self.h, self.dims, self.ts = h, dims, ts
        surroundings(h)
        xarray_model(h)
        self.size = {d: c.int('size_' + d) for d in dims}
        for d in dims:
            c.assume(self.size[d] >= 1)
        n = self.n = c.int('n_days')
        c.assume(n >= 1)
        self.index = day_index(h, n)
        sh = tuple(self.size[d] for d in dims)
        self.mask = h.arr(sh, 'mask', False)
        self.domain = DS('domain', {'mask': DA(self.mask, dims, name='mask')}, self.size)
        self.met = DS('met', {k: DA(None, ('time',) + dims, name=k) for k in ('t_min', 't_max', 'prec')}, dict(self.size, time=n), self.index)
        self.state = DS('state', {}, dict(self.size, time=90))
        p = dict(time_step=ts, method='mtclim', prec_type='uniform', calendar='standard', out_precision='f8', period_ending=False, out_freq=None, chunks=h.dict(),
                 sw_prec_thresh=c.real('p_thresh'), rain_scalar=c.real('p_rain'), tdew_tol=c.real('p_tol'), tmax_daylength_fraction=c.real('p_frac'),
                 tday_coef=c.real('p_tday'), lapse_rate=c.real('p_lapse'), lw_type='prata', lw_cloud='default', utc_offset=False, verbose=0,
                 out_vars=h.dict(**{v: h.dict(out_name=on, units=u) for v, on, u in outs}))
        p.update(params or {})
        self.params = h.dict(**p)
        self.cls = h.fn('metsim', 'MetSim')
        if not isinstance(self.cls, Cls):
            raise Unsupported('MetSim')
        self.ms = Inst(self.cls)
        mod = h.it.load('metsim.metsim')
        import pyvc.interp as _i
        at = h.it.call(h.it.load('copy').ns['deepcopy'], [mod.ns['attrs']], {})
        at['time'] = h.dict(units='minutes since 2000-01-01 00:00:00.0')
        self.ms.d.update(params=self.params, attrs=at, _domain_slice=h.dict(), logger=Ext('logger'), _client=None)
        q = 'metsim.metsim.MetSim.'
        K = h.it.contracts
        K[q + 'domain'] = lambda it, fn, v: self.domain
        K[q + 'met_data'] = lambda it, fn, v: self.met
        K[q + 'state'] = lambda it, fn, v: self.state
        K[q + '_validate_setup'] = lambda it, fn, v: None

    def files(self):
        """stand-ins for netCDF4.Dataset and the encoding of dates"""
        h = self.h
        self.opened = []

        def ds(name, mode='r', **k):
            if 'w' in mode:
                f = File(name, mode)
                self.opened.append(f)
                return f
            for f in self.opened:
                if f.name is name or f.name == name:
                    return f
            raise PyRaise(FileNotFoundError, (str(name),))
        h.it.modeled['netCDF4'] = module('netCDF4', Dataset=Builtin(ds))
        m = h.it.load('metsim.metsim')
        m.ns['Dataset'] = Builtin(ds)

        def d2n(t, units=None, calendar=None, **k):
            return Encoded(t, units, calendar)
        m.ns['date2num'] = Builtin(d2n)
        m.ns['json'] = module('json', dumps=Builtin(lambda *a, **k: 'text'))

    def new_file(self, name, times=None):
        self.files()
        self.h.call(self.h.it.getattr(self.ms, 'setup_netcdf_output'), name, times if times is not None else models.DTIndex(self.index.start, self.ts, mul(self.n, 1440 // self.ts)))
        if len(self.opened) != 1:
            raise Unsupported('files created by setup_netcdf_output')
        return self.opened[0]

    def cell_contract(self, check=True):
        """wrap_run_cell: a table that depends on the cell it is given"""
        h, c, dims = self.h, self.c, self.dims
        I, R = z3.IntSort(), z3.RealSort()
        self.result = {}
        k = 1440 // self.ts
        m = self.m = mul(self.n, k)
        self.runs = 0

        def at(p, who):
            if not isinstance(p, Picked) or p.ds is not who:
                h.prove('a cell is computed from the cell taken out of the %s' % who.name, BT(False))
                raise core.PathAbort()
            if set(p.where) != set(dims) or not all(core.isint(x) for x in p.where.values()):
                raise Unsupported('selection of a cell')
            return [p.where[d] for d in dims]

        def run(it, fn, v):
            for q in ('func', 'params', 'ds', 'state', 'disagg', 'out_times'):
                if q not in v:
                    raise Unsupported('arguments of wrap_run_cell')
            self.runs += 1
            x, y = at(v['ds'], self.met), at(v['state'], self.state)
            L = c.loops[-1] if c.loops else None
            h.prove('forcing and state of the same cell', conj([eq(p, q) for p, q in zip(x, y)]))
            h.prove('the cell lies on the grid', conj([rng(p, self.size[d]) for p, d in zip(x, dims)]))
            meth = self.h.it.load('metsim.methods.' + self.params['method'])
            h.prove('the configured daily method is used', BT(v['func'] is meth.ns.get('run')))
            d = h.it.truth_term(v['disagg'])
            h.prove('disaggregated exactly below one day', BT(d is (self.ts < 1440)) if isinstance(d, bool) else BT(d))
            t = v['out_times']
            h.prove('for the record\'s own days', BT(models.same_index(t.index if isinstance(t, DA) and t.arr is None else t, self.index)))
            p = v['params']
            for q in ('sw_prec_thresh', 'rain_scalar', 'tdew_tol', 'tmax_daylength_fraction', 'tday_coef', 'lapse_rate'):
                h.prove('%s as configured' % q, eq(p[q], self.params[q]) if q in p and models.is_scalar(p[q]) else BT(False))
            for q in ('lw_type', 'lw_cloud', 'method', 'prec_type', 'utc_offset', 'period_ending', 'calendar'):
                h.prove('%s as configured' % q, BT(q in p and p[q] == self.params[q]))
            # the cell's own coordinates are stored in the parameters (wrap_run_cell's frame condition)
            table = VTable(self, x)
            return (table, Ext('daily table'))
        h.it.contracts['metsim.metsim.wrap_run_cell'] = run

    def value(self, var, t, x):
        """value of a variable at step t as computed for cell x"""
        f = self.result.get(var)
        if f is None:
            I = z3.IntSort()
            f = self.result[var] = z3.Function('cell_' + var, *([I] * (1 + len(self.dims)) + [z3.RealSort()]))
        return S(f(*[T(toint(q)) for q in [t] + list(x)]))


class VTable:
    def __init__(self, g, x):
        self.g, self.x = g, x

    def vgetitem(self, it, k):
        if not isinstance(k, str):
            raise Unsupported('result table')
        g, x = self.g, self.x
        return DA(Arr.new((g.m,), lambda i: g.value(k, i[0], x), 'f'), ('time',))

    def vattr(self, it, n):
        raise Unsupported('result table .%s' % n)
