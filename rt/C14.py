"""Cells are independent; masked cells stay missing."""
from .common import *

RULE = ('random domains 1x1..3x3 with masks of 0, negative, NaN, fractional and 1; each active cell against a run of that cell alone; a second run with '
        'changed data and mask in the other cells')
QUICK, THOROUGH = 16, 800


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        ny, nx = rng.randrange(1, 4), rng.randrange(1, 4)
        yield dict(seed=rng.randrange(1 << 30), ny=ny, nx=nx, ts=rng.choice([1440, 360, 240]), method=rng.choice(['mtclim', 'mtclim', 'passthrough']),
                   mask=[[rng.choice([1, 1, 1, .5, 0, -1, None, 7]) for _ in range(nx)] for _ in range(ny)], m=rng.choice(['uniform', 'mix']),
                   n=rng.choice([2, 4]), utc=rng.random() < .3)


FIXED = [dict(seed=s, ny=2, nx=3, ts=ts, method=m, mask=[[1, 0, 1], [None, 2, -1]], m='mix', n=3, utc=0)
         for s, ts, m in ((1, 360, 'mtclim'), (2, 1440, 'mtclim'), (3, 360, 'passthrough'))]


def check(c):
    ny, nx, n = c['ny'], c['nx'], c['n']
    mask = np.array([[np.nan if x is None else x for x in row] for row in c['mask']], float)
    extra = ['shortwave', 'vapor_pressure'] if c['method'] == 'passthrough' else []
    fo, st, do = dataset(c['seed'], n, ny, nx, mask=mask, extra=extra)
    kw = dict(time_step=c['ts'], method=c['method'], out_precision='f8', prec_type=c['m'], utc_offset=bool(c['utc']), lw_cloud='cloud_deardorff')
    o = single(run(config(fo, st, do, **kw))[0])
    outs = ALLDAY if c['ts'] == 1440 else ALLSUB
    active = [(i, j) for i in range(ny) for j in range(nx) if mask[i, j] > 0]
    for v in outs:
        need(v in o and o[v].dims == ('time', 'lat', 'lon'), 'variable %s missing or misshapen' % v)
        a = o[v].values
        for i in range(ny):
            for j in range(nx):
                if (i, j) in active:
                    need(np.isfinite(a[:, i, j]).all(), '%s not finite at active cell %d,%d' % (v, i, j))
                else:
                    need(np.isnan(a[:, i, j]).all(), '%s holds values at masked cell %d,%d' % (v, i, j))
    r = np.random.default_rng(c['seed'] + 1)
    if not active:
        return
    for i, j in [active[k] for k in r.permutation(len(active))[:2]]:
        sub = lambda ds: ds.isel(lat=[i], lon=[j])
        alone = single(run(config(sub(fo), sub(st), sub(do), **kw))[0])
        for v in outs:
            close(o[v].values[:, i, j], alone[v].values[:, 0, 0], '%s of cell %d,%d against a run of that cell alone' % (v, i, j), rtol=1e-9, atol=1e-12)
    # other cells' data and mask do not matter, nor does the order
    i, j = active[int(r.integers(len(active)))]
    fo2, st2, do2 = dataset(c['seed'] + 7, n, ny, nx, mask=np.where(r.random((ny, nx)) < .5, 1., 0.), extra=extra)
    for a2, a1 in ((fo2, fo), (st2, st), (do2, do)):
        for v in a2.data_vars:
            a2[v].values[..., i, j] = a1[v].values[..., i, j]
    if r.random() < .5:
        fo2, st2, do2 = (ds.isel(lat=slice(None, None, -1)) for ds in (fo2, st2, do2))
        i2 = ny - 1 - i
    else:
        i2 = i
    o2 = single(run(config(fo2, st2, do2, **kw))[0])
    for v in outs:
        close(o2[v].values[:, i2, j], o[v].values[:, i, j], '%s of cell %d,%d depends on other cells' % (v, i, j), rtol=1e-9, atol=1e-12)
