"""Chunk workers may run in any order and side by side.

Resource-invariant argument over contracts on the real functions: every job works on an instance of its own and changes
nothing shared (frames), it enters the netCDF library only under a lock common to all jobs, it opens an output file only
under that file's lock, for update and never to create it, and writes only its own chunk; chunks share no cell (C13) and
the value of a cell depends on that cell alone (C14). So the files' final contents are the same for every order."""
from .common import *
from pyvc.core import Unsupported
from pyvc.interp import Builtin, VList, Inst
from . import model_contracts as mc
from . import C13, C14, C15, C20

ASSUMPTIONS = ['locks exclude (threading, dask, multiprocessing and distributed locks; a distributed worker has one thread or shares the process\'s SerializableLock)',
               'xarray opens and reads files in open_dataset, load and while aggregating the state, and nowhere in the computation on loaded data',
               'the netCDF library stores what is written between open and close, for one user at a time',
               'xarray enters the netCDF library to open and load inputs and takes its own (non-reentrant) NETCDFC_LOCK while loading',
               'multiprocessing.Lock cannot be sent to workers of a process pool; locks of a Manager, SerializableLock and xarray\'s get_write_lock (outside process pools) can']

POOLS = ('multiprocessing', 'processes')
OUTSIDE = ('distributed', 'tcp://host:1')
# locks of one process and locks that hold across processes
LOCAL = ('library', 'process')


def global_parts(lk, sched):
    """elementary locks of lk that every worker of this scheduler shares"""
    ok = {'manager'} if sched in POOLS else {'manager', 'write'} if sched in OUTSIDE else {'manager', 'write', 'library', 'process', 'thread'}
    return {p for p in lk.parts if p[0] in ok}


def locks_of_run(sched):
    def check(h, g, names, lk, jobs, events):
        if not isinstance(lk, dict):
            raise Unsupported('locks')
        for k, x in enumerate(sorted(names)):
            l = lk.get(x)
            if not isinstance(l, mc.Lk):
                h.prove('file %d has a lock' % k, BT(False))
                continue
            h.prove('file %d: one lock shared by all workers' % k, BT(bool(global_parts(l, sched))))
            if sched in POOLS:
                h.prove('file %d: the lock can be sent to the workers' % k, BT(all(p[0] in ('library', 'process', 'manager') for p in l.parts)))
        h.prove('no lock is left held by the launcher', BT(not h.it.__dict__.get('held')))
    return check


def process_locks(h, mod):
    """locks that exist once per process: the module's and the class's own"""
    out = set()
    for v in list(mod.ns.values()) + list(h.fn('metsim', 'MetSim').ns.values()):
        for x in (v.values() if isinstance(v, dict) else [v]):
            if isinstance(x, mc.Lk):
                out |= {p for p in x.parts if p[0] in LOCAL}
    return out


def worker(chunked):
    """a job from end to end, cut at the netCDF library: it is entered under one lock common to all jobs of a process"""
    def u(h):
        c = h.c
        h.it.tokens = []
        g = mc.Grid(h, ('lat', 'lon'), 60, [('prec', 'out_prec', 'mm timestep-1')], dict(out_dir='/out', out_prefix='pre', scheduler='threading', num_workers=4, out_freq=None,
                    start='forcing', stop='forcing', domain='dom', state='st', forcing='f', forcing_fmt='netcdf', chunks=h.dict()))
        q = 'metsim.metsim.MetSim.'
        K = h.it.contracts
        log = []

        def touch(what, *more):
            log.append((what, [p for l in h.it.__dict__.get('held', []) for p in l.parts]) + more)

        class Lazy(mc.DS):
            """a data set whose values are read from its file on demand"""
            def vattr(self, it, n):
                if n in ('load', 'compute', 'close'):
                    def f(*a, **k):
                        touch(n + ' ' + self.name)
                        return self
                    return Builtin(f)
                if n == 'isel':
                    return Builtin(lambda **k: self)
                return mc.DS.vattr(self, it, n)
        lazy = {x: Lazy(x, d.vars, d.sizes, d.index) for x, d in (('domain', g.domain), ('met', g.met), ('state', g.state))}
        for v in ('elev', 'lat', 'lon'):
            lazy['domain'].vars[v] = mc.DA(h.arr((g.size['lat'], g.size['lon']), 'dom_' + v), ('lat', 'lon'), name=v)

        def reader(x):
            def f(it, fn, v):
                touch('open ' + x)
                return lazy[x]
            return f
        for x in ('domain', 'met', 'state'):
            K['metsim.io.read_' + {'met': 'met_data'}.get(x, x)] = reader(x)
        for x in ('domain', 'met_data', 'state', '_validate_setup'):
            K.pop(q + x, None)
        K[q + '_validate_force_times'] = lambda it, fn, v: None
        K[q + '_aggregate_state'] = lambda it, fn, v: touch('aggregate state')
        K[q + 'run_slice'] = lambda it, fn, v: touch('compute', v['self'].d.get('_met_data') is not None and v['self'].d.get('_state') is not None)
        K[q + '_get_output_filename'] = lambda it, fn, v: '/out/a.nc'
        K[q + '_update_unit_attrs'] = lambda it, fn, v: None
        mod = h.it.load('metsim.metsim')
        shared = process_locks(h, mod)

        class F_(mc.File):
            def __init__(f, nm, mode):
                mc.File.__init__(f, nm, mode)
                touch('open output')
                f.vars['out_prec'] = V_(f, 'out_prec', ('time', 'lat', 'lon'))

            def vexit(f, it):
                touch('close output')

        class V_(mc.FileVar):
            def vsetitem(v, it, k, x):
                touch('write')
        mod.ns['Dataset'] = Builtin(lambda nm, mode='r', **k: F_(nm, mode))
        sent = mc.Lk([('library', 'netcdf'), ('write', '/out/a.nc')])

        class Out:
            def vgetitem(self, it, k):
                return self

            def vattr(self, it, n):
                return Builtin(lambda *a, **k: self) if n == 'sel' else self
        base = K[q + 'run_slice']

        def compute(it, fn, v):
            base(it, fn, v)
            v['self'].d['output'] = Out()
        K[q + 'run_slice'] = compute
        sl = h.dict(lat=slice(c.int('a0'), c.int('a1'))) if chunked else h.dict(lat=slice(None), lon=slice(None))
        c.cover('a job')
        h.call(h.fn('metsim', 'wrap_run_slice'), g.params, h.dict(**{'/out/a.nc': sent}), sl)
        what = [x[0] for x in log]
        for n in ('open domain', 'open met', 'open state', 'compute', 'open output', 'write', 'close output'):
            h.prove('the job goes through "%s"' % n, BT(n in what))
        for x in log:
            if x[0] == 'compute':
                h.prove('the inputs are in memory when the computation starts', BT(x[2] and all('load ' + y in what[:what.index('compute')] for y in lazy)))
        inside = [set(x[1]) for x in log if x[0] != 'compute']
        common = set.intersection(*inside) & shared if inside else set()
        h.prove('opening, reading and writing exclude those of every other job', BT(bool(common)))
        for x in log:
            if x[0].split()[0] in ('load', 'aggregate', 'open') and x[0] != 'open output':
                h.prove('%s: the library\'s own lock is free for the library' % x[0], BT(not any(y[0] == 'library' for y in x[1])))
            elif x[0] in ('open output', 'write', 'close output'):
                h.prove('%s: under the file\'s lock' % x[0], BT(set(sent.parts) <= set(x[1])))
        ev = h.it.__dict__.get('lock_events', [])
        h.prove('the common lock is taken first, never while another is held', BT(all(not held for e, l, held in ev if e == 'acquire' and set(l.parts) & common)))
        h.prove('no lock is taken twice by one job', BT(all(not (set(l.parts) & {x for y in held for x in y.parts}) for e, l, held in ev if e == 'acquire')))
        h.prove('every lock is given back', BT(not h.it.__dict__.get('held')))
    return u


def writer(ts, ending, nfiles):
    """write_chunk: a file is open only while its own lock is held, for update, and is closed again"""
    def u(h):
        c = h.c
        h.it.tokens = []
        g = C15.grid(h, ts, ending)
        b = [0, c.int('b1'), g.N] if nfiles == 2 else [0, g.N]
        if nfiles == 2:
            c.assume((b[1] >= 1) & (b[1] < g.N))
        full = models.DTIndex(C15.stamp(g, 0), ts, g.N)
        parts = [models.DTIndex(C15.stamp(g, b[i]), ts, sub(b[i + 1], b[i])) for i in range(len(b) - 1)]
        g.files()
        m = h.it.load('metsim.metsim')
        names = [h.call(h.it.getattr(g.ms, '_get_output_filename'), t) for t in parts]
        lock = {n: mc.Lk([('library', 'netcdf'), ('write', k)]) for k, n in enumerate(names)}
        spans = []

        class F_(mc.File):
            open_ = True

            def __init__(f, nm, mode):
                mc.File.__init__(f, nm, mode)
                spans.append(('open', nm, mode, list(h.it.__dict__.get('held', []))))
                for v in g.params['out_vars'].values():
                    f.vars[v['out_name']] = V_(f, v['out_name'], ('time', 'lat', 'lon'))

            def shut(f):
                if f.open_:
                    f.open_ = False
                    spans.append(('close', f.name, None, list(h.it.__dict__.get('held', []))))

            def vexit(f, it):
                f.shut()

            def vattr(f, it, n):
                return Builtin(f.shut) if n == 'close' else mc.File.vattr(f, it, n)

        class V_(mc.FileVar):
            def vsetitem(v, it, k, x):
                if not v.f.open_:
                    raise Unsupported('write to a closed file')
                spans.append(('write', v.f.name, k, list(h.it.__dict__.get('held', []))))
                mc.FileVar.vsetitem(v, it, k, x)
        files = []

        def ds(nm, mode='r', **k):
            f = F_(nm, mode)
            files.append(f)
            return f
        m.ns['Dataset'] = Builtin(ds)
        arr = h.arr((g.N, g.size['lat'], g.size['lon']), 'out')
        out = mc.DS('output', {'prec': mc.DA(arr, ('time', 'lat', 'lon'), full, 'prec')}, {'time': g.N}, full)
        r0 = {d: (c.int('c0_' + d), c.int('c1_' + d)) for d in ('lat', 'lon')}
        g.ms.d.update(output=out, _times=VList(parts), _domain_slice=h.dict(**{d: slice(*r0[d]) for d in r0}))
        before = mc.snapshot(g.params)
        T_ = mc.Tables(h)
        c.cover('a chunk, %d files' % nfiles)
        h.call(h.it.getattr(g.ms, 'write_chunk'), locks=h.dict(**lock))
        for what, nm, mode, held in spans:
            k = names.index(nm) if nm in names else None
            h.prove('only files of the run are opened', BT(k is not None))
            if k is None:
                continue
            h.prove('file %d: %s under its own lock' % (k, what), BT(any(set(lock[nm].parts) <= set(x.parts) for x in held)))
            if what == 'open':
                h.prove('file %d is opened for update, what others wrote is kept' % k, BT(mode in ('r+', 'a')))
        for k, nm in enumerate(names):
            h.prove('file %d is written' % k, BT(any(s[0] == 'write' and s[1] == nm for s in spans)))
        h.prove('every file is closed again', BT(not any(f.open_ for f in files)))
        h.prove('every lock is given back', BT(not h.it.__dict__.get('held')))
        h.prove('settings unchanged by writing', BT(mc.diff(before, mc.snapshot(g.params)) == ''))
        T_.unchanged('by writing')
    return u


SCHED = ['threading', 'threads', 'synchronous', 'sync', 'single-threaded', 'multiprocessing', 'processes', 'distributed', 'tcp://host:1']


def units(tier):
    out = [('C23.worker', worker(True)), ('C23.worker.whole', worker(False))]
    for s in SCHED:
        out.append(('C23.run.%s' % s.replace('/', ''), C13.run(('lat', 'lon'), ('lat', 'lon'), s, locks_of_run(s))))
    for ts in (1440, 60):
        for e in (False, True):
            for n in (1, 2):
                out.append(('C23.write.ts%d.%s.%d' % (ts, e, n), writer(ts, e, n)))
    for k, d in C13.CASES:
        out.append(('C23.disjoint.%s.of.%s' % ('+'.join(k), '+'.join(d)), C13.chunks(k, d)))
    for ts in (1440, 60):
        out.append(('C23.position.ts%d' % ts, C15.store(ts, False)))
    out.append(('C23.own_instance', C13.worker))
    out.append(('C23.frame.run_slice', C20.slice_))
    out.append(('C23.frame.settings', C20.pair((), None, (), {'temp': 'K'})))
    for ts in (1440, 60):
        from . import C12
        out.append(('C23.cell.ts%d' % ts, C12.written(ts, ('lat', 'lon'), [(v, C12.DEFAULT[v]) for v in (C12.DAILY if ts == 1440 else C12.SUBDAY)])))
    return out
