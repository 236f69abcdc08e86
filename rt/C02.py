"""Sub-daily shortwave."""
from .common import *
from . import ref

RULE = ('random daily fluxes, daylengths and lit windows (curve rows summing to one, polar night rows zero), 1-5 days incl. leap '
        'years and day 366, every sub-daily step, mtclim / passthrough / daylight; a third through disaggregate with solar_geom')
QUICK, THOROUGH = 150, 4000


def warm():
    geom(0, 45)


def curves(r):
    f = np.zeros((366, 2880))
    j = np.arange(2880)
    for i in range(366):
        kind = r.random()
        if kind < .05:
            continue
        a = int(r.integers(1, 1200))
        b = int(r.integers(a + 2, 2879)) if kind < .9 else 2879
        w = r.random(b - a) + .01
        f[i, a:b] = w / w.sum()
    return f


def cases(rng, tier):
    while True:
        m = rng.choice(['mtclim', 'passthrough', 'daylight'])
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 3, 5]), ts=rng.choice(SUB), m=m, whole=rng.random() < .35,
                   lat=rng.uniform(-66, 66), start=rng.choice(['1950-01-01', '2000-12-29', '1999-12-29', '2001-06-01']))


FIXED = [dict(seed=i, n=3, ts=ts, m=m, whole=w, lat=45., start='2000-12-30')
         for i, ts in enumerate([1, 60, 180, 360]) for m in ('mtclim', 'passthrough', 'daylight') for w in (0, 1)]


def check(c):
    n, ts = c['n'], c['ts']
    r = np.random.default_rng(c['seed'])
    d = daily(c['seed'], n, c['start'])
    doy = day_of_year(d.index)
    p = params(method='mtclim' if c['m'] == 'mtclim' else 'passthrough', time_step=ts, utc_offset=False, lon=r.uniform(-180, 180))
    if c['m'] == 'daylight':
        p['sw_averaging'] = 'daylight'
    k = 1440 // ts
    if not c['whole']:
        f = get('disaggregate', 'shortwave')
        fr = curves(r)
        dl = r.uniform(0, 86400, n)
        sw = d['shortwave'].values.copy()
        out = np.asarray(f(sw.copy(), dl.copy(), pd.Index(doy), fr.copy(), p))
        close(out, ref.shortwave_sub(sw, dl, doy, fr, ts), 'sub-daily shortwave', rtol=1e-7, atol=1e-7)
        return
    g = geom(r.uniform(0, 2000), c['lat'])
    d['daylength'] = g['daylength'][doy - 1]
    p['elev'] = 500.
    sw = d['shortwave'].values.copy()
    dl = d['daylength'].values.copy() if c['m'] != 'passthrough' else np.full(n, 86400.)
    o = get('disaggregate', 'disaggregate')(d.copy() if n > 1 else d.copy(), p, g, None, None) if n > 1 else None
    if o is None:
        return
    out = o['shortwave'].values
    need(out.shape == (n * k,), 'shortwave has %s values' % (out.shape,))
    le(0, out, 'negative shortwave')
    close(out, ref.shortwave_sub(sw, dl, doy, g['tiny_rad_fract'], ts), 'sub-daily shortwave', rtol=1e-7, atol=1e-7)
    close(out.reshape(n, k).sum(axis=1) * ts * 60, sw * dl, 'energy of the day', rtol=5e-3, atol=1)
    dark = (g['tiny_rad_fract'][doy - 1].reshape(n, k, 2 * ts) == 0).all(axis=2).ravel()
    close(out[dark], 0, 'shortwave with the sun down') if False else need((out[dark] == 0).all(), 'shortwave while the sun is down')
