"""Spatial chunking."""
from .common import *

RULE = ('dimension sizes 1..40 and chunk sizes 1..60, one or two dimensions of any name, partial chunk dictionaries, int or text sizes: slices cover every '
        'cell once; a tenth as chunked runs of random domains (random mask, forcing as file or as dataset) compared with the unchunked run')
QUICK, THOROUGH = 300, 12000


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        if rng.random() < .07:
            ny, nx = rng.randrange(1, 5), rng.randrange(1, 5)
            ch = {}
            if rng.random() < .8:
                ch['lat'] = rng.randrange(1, 7)
            if rng.random() < .8 or not ch:
                ch['lon'] = rng.randrange(1, 7)
            yield dict(kind='run', seed=rng.randrange(1 << 30), ny=ny, nx=nx, chunks=ch, ts=rng.choice([360, 1440]), data=rng.random() < .25)
        else:
            names = rng.sample(['lat', 'lon', 'y', 'x', 'hru', 'rlat'], rng.choice([1, 2]))
            dims = {d: rng.randrange(1, 41) for d in names}
            ch = {d: rng.choice([rng.randrange(1, 61), dims[d], max(1, dims[d] - 1), dims[d] + 1]) for d in names if rng.random() < .85 or len(names) == 1}
            if not ch:
                continue
            yield dict(kind='slices', dims=dims, chunks=ch, text=rng.random() < .3)


FIXED = [dict(kind='slices', dims={'lat': a, 'lon': b}, chunks={'lat': x, 'lon': y}, text=0) for a, b, x, y in
         [(1, 1, 1, 1), (10, 10, 3, 4), (10, 7, 5, 7), (4, 4, 9, 2), (6, 5, 1, 6), (33, 2, 32, 1)]] + \
        [dict(kind='run', seed=3, ny=3, nx=4, chunks=ch, ts=1440) for ch in ({'lat': 2, 'lon': 3}, {'lat': 2}, {'lon': 3}, {'lat': 1, 'lon': 1}, {'lat': 9, 'lon': 9})] + \
        [dict(kind='run', seed=4, ny=3, nx=3, chunks=ch, ts=1440, data=True) for ch in ({'lat': 2, 'lon': 2}, {'lon': 1})]


def check(c):
    if c['kind'] == 'slices':
        f = get('metsim', 'chunk_domain')
        ch = {d: (str(x) if c['text'] else x) for d, x in c['chunks'].items()}
        sl = f(ch, dict(c['dims']))
        names = list(c['dims'])
        hit = np.zeros([c['dims'][d] for d in names], int)
        for s in sl:
            hit[tuple(s.get(d, slice(None)) for d in names)] += 1
        need((hit == 1).all(), 'cells covered %s times (least %d, most %d)' % (sorted(set(hit.ravel().tolist())), hit.min(), hit.max()))
        return
    r = np.random.default_rng(c['seed'])
    mask = (r.random((c['ny'], c['nx'])) < .8).astype(float)
    mask.flat[0] = 1
    fo, st, do = dataset(c['seed'], 3, c['ny'], c['nx'], mask=mask)
    p = config(fo, st, do, time_step=c['ts'], out_precision='f8')
    a = single(run(p, 'whole')[0])
    q = dict(p, chunks=dict(c['chunks']))
    if c.get('data'):
        import xarray as xr
        q.update(forcing=xr.open_dataset(p['forcing']).load(), forcing_fmt='data')
    b = single(run(q, 'chunked')[0])
    need(dict(a.sizes) == dict(b.sizes), 'sizes %s and %s' % (dict(a.sizes), dict(b.sizes)))
    for v in a.data_vars:
        need(a[v].dims == b[v].dims, 'dims of ' + v)
        close(b[v].values, a[v].values, '%s with chunks %s' % (v, c['chunks']), rtol=1e-12, atol=0)
    for d in ('lat', 'lon'):
        close(b[d].values, getattr(do, d).values, 'coordinate ' + d)
