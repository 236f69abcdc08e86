"""chunk_domain: the chunk slices cover every cell of the grid exactly once."""
from .common import *
from pyvc.core import Unsupported
from pyvc.interp import SymSeq, VDict, VList, Builtin
from . import model_contracts as mc


def inside(sl, y, dim):
    """numpy / xarray: position y of an axis of length dim is selected by the slice"""
    if not isinstance(sl, slice) or sl.step is not None:
        raise Unsupported('chunk is not a plain slice')
    a = 0 if sl.start is None else sl.start
    b = dim if sl.stop is None else sl.stop
    a = ite(cmp('<', a, 0), maximum(add(a, dim), 0), a)
    b = ite(cmp('<', b, 0), maximum(add(b, dim), 0), b)
    return land(cmp('<=', a, y), cmp('<', y, b))


def chunks(keys, dims, text=False):
    def u(h):
        c = h.c
        n = {d: c.int('size_' + d) for d in dims}
        w = {d: c.int('chunk_' + d) for d in keys}
        for d in dims:
            c.assume(n[d] >= 1)
        for d in keys:
            c.assume(w[d] >= 1)
        c.cover('grid and chunk sizes')
        r = h.call(h.fn('metsim', 'chunk_domain'), h.dict(**{d: w[d] for d in keys}), h.dict(**n))
        seq = r if isinstance(r, SymSeq) else None
        if seq is None:
            raise Unsupported('chunk_domain returns %s' % type(r).__name__)
        ns = seq.multi or (seq.n,)
        cell = {d: h.idx(n[d], 'cell_' + d) for d in dims}

        def has(ix):
            e = seq.elem(tuple(ix) if seq.multi else ix[0])
            if not isinstance(e, dict) or set(e) - set(dims):
                raise Unsupported('element of chunk_domain')
            return conj([inside(e[d], cell[d], n[d]) for d in dims if d in e] or [True])
        # covered: the chunk the cell's own position falls into is one of them
        if len(ns) != len(keys):
            raise Unsupported('chunk list is no product over the chunked dimensions')
        ix = [S(T(floordiv(cell[d], w[d]))) for d in keys]
        h.prove('every cell lies in a chunk', conj([has(ix)] + [rng(i, m) for i, m in zip(ix, ns)]))
        # once: two different chunks share no cell
        p = tuple(h.idx(m, 'p') for m in ns)
        q = tuple(h.idx(m, 'q') for m in ns)
        for k, d in enumerate(keys):
            with c.assuming([cmp('<', p[k], q[k])]):
                h.prove('no cell lies in two chunks (%s)' % d, lnot(land(has(p), has(q))))
    return u


CASES = [(('lat',), ('lat', 'lon')), (('lon',), ('lat', 'lon')), (('lat', 'lon'), ('lat', 'lon')), (('lon', 'lat'), ('lat', 'lon')), (('hru',), ('hru',))]


def units(tier):
    return [('C13.chunks.%s.of.%s' % ('+'.join(k), '+'.join(d)), chunks(k, d)) for k, d in CASES]


# ------------------------------------------------------------------ how the chunks are used

class Job:
    """a delayed call of wrap_run_slice"""
    def __init__(self, args):
        self.args = args


def same_slice(a, b):
    if a is b:
        return True
    if isinstance(a, slice) and isinstance(b, slice):
        return conj([BT(x is y) if x is None or y is None else eq(x, y) for x, y in ((a.start, b.start), (a.stop, b.stop), (a.step, b.step))])
    return False


def run(dims, keys, sched='threading', locks=None):
    """run(): every file is created once, then one job per chunk, all of them executed"""
    def u(h):
        c = h.c
        h.it.tokens = []
        chunks = h.dict(**{d: c.int('chunk_' + d) for d in keys}) if keys else h.dict()
        g = mc.Grid(h, dims, 60, [('prec', 'prec', 'mm timestep-1')], dict(out_dir='/out', out_prefix='pre', num_workers=3, scheduler=sched, chunks=chunks))
        for d in keys:
            c.assume(chunks[d] >= 1)
        events = []
        q = 'metsim.metsim.'
        K = h.it.contracts

        def setup(it, fn, v):
            events.append(('file', v['filename'], v['times']))
        K[q + 'MetSim.setup_netcdf_output'] = setup

        def job(it, fn, v):
            return Job(dict(v))
        K[q + 'wrap_run_slice'] = job

        def go(name):
            def f(*a, **k):
                for x in a:
                    if isinstance(x, (SymSeq, list, tuple)):
                        events.append((name, x))
                return (x,) if name == 'persist' else Ext0
            return Builtin(f)
        Ext0 = mc.Ext('results')
        m = h.it.load('metsim.metsim')
        m.ns['dask'] = mc.module('dask', persist=go('persist'), compute=go('compute'))
        g.ms.d['progress_bar'] = Builtin(lambda x: x)
        b = c.int('b')
        c.assume((b >= 1) & (b < g.n))
        t = [models.DTIndex(g.index.at(0), 60, mul(24, b)), models.DTIndex(g.index.at(b), 60, mul(24, sub(g.n, b)))]
        g.ms.d['_times'] = VList(t)
        c.cover('a run')
        h.call(h.it.getattr(g.ms, 'run'))
        names = [h.call(h.it.getattr(g.ms, '_get_output_filename'), x) for x in t]
        files = [e for e in events if e[0] == 'file']
        jobs = [e for e in events if e[0] != 'file']
        h.prove('every file is created once, for its own stamps', BT(len(files) == 2 and sorted(f[1] for f in files) == sorted(names) and all(f[2] is t[names.index(f[1])] for f in files if f[1] in names)))
        h.prove('jobs are executed', BT(len(jobs) >= 1))
        h.prove('files are there before any job runs', BT(all(e[0] == 'file' for e in events[:len(files)])))
        if not jobs:
            return
        js = jobs[0][1]
        sl = h.it.getattr(g.ms, 'slices')
        n = lambda s: s.n if isinstance(s, SymSeq) else len(s)
        h.prove('one job per chunk', eq(n(js), n(sl)))
        if isinstance(js, SymSeq) and isinstance(sl, SymSeq) and js.multi and sl.multi:
            ix = tuple(h.idx(m) for m in sl.multi)
        else:
            ix = h.idx(n(sl), 'p')
        el = lambda s: s.elem(ix) if isinstance(s, SymSeq) else s[int(str(ix))] if not isinstance(ix, S) else s[0] if len(s) == 1 else None
        j, want = el(js), el(sl)
        if not isinstance(j, Job) or not isinstance(want, dict):
            raise Unsupported('jobs')
        h.prove('each job runs with this run\'s settings', BT(mc.same_value(j.args.get('params'), g.params)))
        d = j.args.get('domain_slice')
        h.prove('job p gets chunk p', conj([BT(isinstance(d, dict) and set(d) == set(want))] + [same_slice(d[k], want[k]) for k in want if isinstance(d, dict) and k in d]))
        lk = j.args.get('write_locks')
        h.prove('each job gets a lock for every file', BT(isinstance(lk, dict) and all(x in lk for x in names)))
        if locks:
            locks(h, g, names, lk, js, events)
        if not keys:
            h.prove('without chunks one job covers the grid', BT(n(sl) == 1 and set(want) == set(dims) and all(x == slice(None) for x in want.values())))
    return u


def worker(h):
    """wrap_run_slice: an instance of its own, on this chunk: load, compute, write"""
    c = h.c
    mc.surroundings(h)
    T = mc.Tables(h)
    log = []
    q = 'metsim.metsim.MetSim.'
    K = h.it.contracts

    def init(it, fn, v):
        log.append(('new', v['self'], snap(v['params']), v['params'], v['domain_slice']))

    def snap(p):
        return dict(p)
    K[q + '__init__'] = init
    for n in ('load_inputs', 'run_slice', 'write_chunk'):
        K[q + n] = (lambda n: lambda it, fn, v: log.append((n, v['self'], dict(v))))(n)
    p = h.dict(time_step=60, a=c.real('setting'), out_vars=h.dict(), is_worker=False)
    before = dict(p)
    locks = h.dict(**{'/out/a.nc': mc.Ext('lock a'), '/out/b.nc': mc.Ext('lock b')})
    sl = h.dict(lat=slice(c.int('a0'), c.int('a1')))
    c.cover('a job')
    h.call(h.fn('metsim', 'wrap_run_slice'), p, locks, sl)
    kinds = [e[0] for e in log]
    h.prove('one instance: load, compute, write', BT([k for k in kinds if k != 'load_inputs'] == ['new', 'run_slice', 'write_chunk']))
    if kinds[:1] == ['new']:
        _, me, given, _, d = log[0]
        h.prove('the chunk is this job\'s', conj([BT(isinstance(d, dict) and set(d) == set(sl))] + [same_slice(d[k], sl[k]) for k in sl if isinstance(d, dict) and k in d]))
        h.prove('the settings are this job\'s', BT(all(k in given and mc.same_value(given[k], v) for k, v in before.items() if k != 'is_worker')))
        h.prove('one instance throughout', BT(all(e[1] is me for e in log)))
        w = [e for e in log if e[0] == 'write_chunk']
        h.prove('written under the run\'s locks', BT(len(w) == 1 and mc.same_value(w[0][2].get('locks'), locks)))
    h.prove('the settings handed in are unchanged', BT(mc.same_value(p, before)))


def chunk_of_domain(dims, keys):
    """the domain of an instance is its chunk of the grid"""
    def u(h):
        c = h.c
        g = mc.Grid(h, dims, 60, [])
        sl = h.dict(**{d: slice(c.int('a0_' + d), c.int('a1_' + d)) for d in keys})
        took = []

        class Whole(mc.DS):
            def vattr(self, it, n):
                if n == 'isel':
                    def isel(**k):
                        took.append(dict(k))
                        return g.domain
                    return Builtin(isel)
                return super().vattr(it, n)
        w = Whole('whole', {}, g.size)
        K = h.it.contracts
        K.pop('metsim.metsim.MetSim.domain', None)
        asked = []

        def read(it, fn, v):
            asked.append(v.get('params'))
            return w
        K['metsim.io.read_domain'] = read
        g.ms.d.update(_domain=None, _domain_slice=sl)
        c.cover('a chunk')
        d = h.it.getattr(g.ms, 'domain')
        h.prove('read with this run\'s settings', BT(len(asked) == 1 and mc.same_value(asked[0], g.params)))
        h.prove('cut to the chunk', BT(len(took) == 1 and d is g.domain and set(took[0]) == set(sl) and all(same_slice(took[0][k], sl[k]) is True for k in sl if k in took[0])))
        h.prove('kept', BT(h.it.getattr(g.ms, 'domain') is d and len(took) == 1))
    return u


def file_shape(dims, keys):
    """the file is as large as the whole grid whatever the chunks; chunk sizes given to the library fit"""
    def u(h):
        c = h.c
        ch = h.dict(**{d: c.int('chunk_' + d) for d in keys})
        for d in keys:
            c.assume(ch[d] >= 1)
        g = mc.Grid(h, dims, 60, [('prec', 'prec', 'mm timestep-1'), ('temp', 'temp', 'C')], dict(chunks=ch))
        f = g.new_file('/out/file.nc')
        c.cover('new file')
        for d in dims:
            h.prove('%s of the file has the size of the grid' % d, eq(f.dims[d], g.size[d]) if d in f.dims else BT(False))
        for v in ('prec', 'temp'):
            x = f.vars[v]
            h.prove('%s runs over the grid' % v, BT(x.dims == ('time',) + tuple(dims)))
            cs = x.kw.get('chunksizes')
            if cs is not None:
                for d, q in zip(dims, list(cs)[1:]):
                    h.prove('%s: storage chunk along %s fits' % (v, d), land(cmp('>=', q, 1), cmp('<=', q, g.size[d])))
    return u


_base = units


def units(tier):
    from . import C15
    out = _base(tier)
    for dims, keys in [(('lat', 'lon'), ()), (('lat', 'lon'), ('lat',)), (('lat', 'lon'), ('lat', 'lon')), (('hru',), ('hru',))]:
        s = '%s.%s' % ('+'.join(keys) or 'none', '+'.join(dims))
        out.append(('C13.run.' + s, run(dims, keys)))
        out.append(('C13.domain.' + s, chunk_of_domain(dims, keys)))
        out.append(('C13.file_shape.' + s, file_shape(dims, keys)))
    out.append(('C13.worker', worker))
    for ts in (1440, 60):
        out.append(('C13.write.ts%d' % ts, C15.store(ts, False)))
    return out
