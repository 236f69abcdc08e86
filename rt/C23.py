"""Order and interleaving of chunk workers."""
import signal
import threading
import time
import traceback
from .common import *

RULE = ('domains of up to 4 x 5 cells, random masks, chunk sizes and output frequencies: runs with 2 to 8 threads (delays inserted where the netCDF library is entered; two threads '
        'inside it at a time is a failure), jobs executed in random order, and a process pool, each compared with the run of one job after the other')
QUICK, THOROUGH = 48, 1200


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        ny, nx = rng.randrange(1, 5), rng.randrange(2, 6)
        ch = {}
        if rng.random() < .8:
            ch['lat'] = rng.randrange(1, 4)
        if rng.random() < .8 or not ch:
            ch['lon'] = rng.randrange(1, 4)
        how = rng.choice(['threads', 'threads', 'order', 'held'])
        yield dict(how=how, seed=rng.randrange(1 << 30), ny=ny, nx=nx, chunks=ch, ts=rng.choice([360, 1440]), n=rng.randrange(2, 9), freq=rng.choice([None, None, 'D', '2D']))


FIXED = [dict(how='held', seed=6, ny=2, nx=3, chunks={'lon': 1}, ts=360, n=2, freq='D'),
         dict(how='locks', seed=7, ny=1, nx=2, chunks={'lon': 1}, ts=1440, n=2, freq='D', scheduler='processes'),
         dict(how='locks', seed=8, ny=1, nx=2, chunks={'lon': 1}, ts=1440, n=2, freq=None, scheduler='threading'),
         dict(how='threads', seed=1, ny=3, nx=4, chunks={'lat': 1, 'lon': 2}, ts=360, n=4, freq=None),
         dict(how='threads', seed=2, ny=2, nx=3, chunks={'lon': 1}, ts=1440, n=8, freq='D'),
         dict(how='order', seed=3, ny=3, nx=4, chunks={'lat': 2, 'lon': 2}, ts=360, n=1, freq='D'),
         dict(how='processes', seed=4, ny=1, nx=4, chunks={'lon': 2}, ts=1440, n=2, freq=None),
         dict(how='multiprocessing', seed=5, ny=2, nx=2, chunks={'lon': 1}, ts=1440, n=2, freq=None)]


class Busy(object):
    """who is inside the netCDF library; delays make overlaps show"""
    def __init__(self, r):
        self.now, self.bad, self.r, self.m = {}, [], r, threading.Lock()

    def enter(self, what):
        with self.m:
            me = threading.get_ident()
            others = [w for t, ws in self.now.items() if t != me for w in ws]
            if others:
                self.bad.append('%s while another worker was at %s' % (what, others[0]))
            self.now.setdefault(me, []).append(what)
        time.sleep(self.r.uniform(0, .004))

    def leave(self):
        with self.m:
            self.now[threading.get_ident()].pop()


def watch(b):
    """wrap the places where MetSim enters the netCDF library"""
    import xarray as xr
    from metsim import io, metsim as mm
    real_open, real_load, real_ds = xr.open_dataset, xr.Dataset.load, mm.Dataset

    def opened(*a, **k):
        b.enter('opening an input')
        try:
            return real_open(*a, **k)
        finally:
            b.leave()

    def load(self, **k):
        b.enter('loading an input')
        try:
            return real_load(self, **k)
        finally:
            b.leave()

    class D(real_ds):
        def __init__(self, *a, **k):
            b.enter('using an output file')
            real_ds.__init__(self, *a, **k)

        def __exit__(self, *a):
            real_ds.__exit__(self, *a)
            b.leave()
    xr.open_dataset, xr.Dataset.load, mm.Dataset = opened, load, D


class Held(object):
    def __init__(self):
        self.on = False

    def __enter__(self):
        self.on = True

    def __exit__(self, *a):
        self.on = False

    def acquire(self, *a, **k):
        self.on = True
        return True

    def release(self):
        self.on = False


class Locks(dict):
    def __missing__(self, k):
        self[k] = Held()
        return self[k]

    def get(self, k, d=None):
        return self[k]


def held(c, p):
    """a job opens an output file only under that file's lock, and for update"""
    import metsim.metsim as mm
    real = mm.Dataset
    whole = mm.MetSim(p)
    names = [whole._get_output_filename(t) for t in whole._times]
    for n, t in zip(names, whole._times):
        whole.setup_netcdf_output(n, t)
    for s in whole.slices:
        locks = Locks({n: Held() for n in names})

        class D(real):
            def __init__(self, name, mode='r', **k):
                need(mode in ('r+', 'a'), 'output file opened with mode %s by a worker' % mode)
                need(name in names, 'opens %s, not a file of this run' % name)
                need(locks[name].on, '%s opened without its lock' % os.path.basename(name))
                real.__init__(self, name, mode, **k)

            def __exit__(self, *a):
                real.__exit__(self, *a)
        ms = mm.MetSim(dict(p, is_worker=True), domain_slice=s)
        ms.load_inputs()
        ms.run_slice()
        mm.Dataset = D
        try:
            ms.write_chunk(locks=locks)
        finally:
            mm.Dataset = real
        need(not any(x.on for x in locks.values()), 'a lock is kept')


def locks(c, p):
    """the locks the launcher hands out exclude workers of this scheduler from each other"""
    import metsim.metsim as mm
    import cloudpickle
    seen = []
    real = mm.wrap_run_slice

    def job(params, write_locks, *a, **k):
        seen.append(write_locks)
        return real(params, write_locks, *a, **k)
    mm.wrap_run_slice = job
    try:
        run(dict(p, scheduler=c['scheduler'], num_workers=1), 'locks')
    finally:
        mm.wrap_run_slice = real
    need(len(seen) > 0, 'no jobs')
    files = sorted(n for n in os.listdir(p['out_dir']) if n.startswith('locks_'))
    for w in seen:
        need(sorted(os.path.basename(n) for n in w) == files, 'locks for %s, files %s' % (sorted(w), files))
        if c['scheduler'] == 'processes':
            from dask.utils import SerializableLock
            for n, l in w.items():
                cross = [x for x in getattr(l, 'locks', [l]) if not isinstance(x, (SerializableLock, type(threading.Lock())))]
                need(cross, 'the lock of %s does not hold across processes' % os.path.basename(n))


def body(c):
    r = np.random.default_rng(c['seed'])
    mask = (r.random((c['ny'], c['nx'])) < .8).astype(float)
    mask.flat[0] = 1
    fo, st, do = dataset(c['seed'], 3, c['ny'], c['nx'], mask=mask)
    p = config(fo, st, do, time_step=c['ts'], out_precision='f8', out_freq=c['freq'], chunks=dict(c['chunks']))
    if c['how'] in ('held', 'locks'):
        return {'held': held, 'locks': locks}[c['how']](c, p)
    a = run(p, 'alone')[0]
    if c['how'] == 'order':
        import metsim.metsim as mm
        q = p
        old = mm.MetSim.slices
        k = list(r.permutation(1000))

        class Shuffled(mm.MetSim):
            @property
            def slices(self):
                s = old.fget(self)
                return [s[i] for i in k if i < len(s)]
        mm.MetSim = Shuffled
        try:
            b = run(q, 'shuffled')[0]
        finally:
            mm.MetSim = Shuffled.__mro__[1]
    else:
        q = dict(p, scheduler='threading' if c['how'] == 'threads' else c['how'], num_workers=c['n'])
        busy = Busy(np.random.default_rng(c['seed'] + 1))
        if c['how'] == 'threads':
            watch(busy)
        b = run(q, 'together')[0]
        need(not busy.bad, 'two workers in the netCDF library: %s' % (busy.bad or [''])[0])
    na, nb = ({n.split('_', 1)[1]: v for n, v in x.items()} for x in (a, b))
    need(sorted(na) == sorted(nb), 'files %s and %s' % (sorted(na), sorted(nb)))
    for n in na:
        need(dict(na[n].sizes) == dict(nb[n].sizes), 'sizes in ' + n)
        for v in na[n].data_vars:
            need(np.array_equal(na[n][v].values, nb[n][v].values, equal_nan=True), '%s in %s differs when workers run %s' % (v, n, c['how']))


def check(c):
    """in a process of its own: a crash of the library or a deadlock ends that process only"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setsid()
            os.close(r)
            v = verdict(body, c)
            if v is not None:
                os.write(w, repr(v)[:3000].encode())
        except BaseException:
            os.write(w, repr(('fail', traceback.format_exc()[-800:], None)).encode())
        finally:
            os._exit(code)
    os.close(w)
    end, status = time.time() + 120, None
    while time.time() < end:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            status = s
            break
        time.sleep(.02)
    try:
        os.killpg(pid, signal.SIGKILL)          # helpers the run may have left behind hold the pipe
    except OSError:
        pass
    if status is None:
        os.waitpid(pid, 0)
        os.close(r)
        need(False, 'the run does not finish (deadlock)')
    out = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        out += x
    os.close(r)
    need(not os.WIFSIGNALED(status), 'the run crashed with signal %d' % (os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0))
    if out:
        v = eval(out.decode(), {})
        if v[0] == 'na':
            raise Inapplicable(v[1])
        need(False, v[1])
