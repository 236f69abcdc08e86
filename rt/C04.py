"""Humidity."""
from .common import *
from . import ref

RULE = ('random daily vapour pressures (dry to supersaturating), temperatures -60..45 C, minimum-temperature times, steps; '
        'vapor_pressure, relative_humidity, specific_humidity, svp directly, and the columns of disaggregate incl. record ends')
QUICK, THOROUGH = 150, 4000


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([2, 3, 6]), ts=rng.choice(SUB), what=rng.choice(['vp', 'rh', 'q', 'svp', 'all', 'all']),
                   lat=rng.uniform(-80, 80), wet=rng.random() < .4, start=rng.choice(['1950-01-01', '2000-12-29', '2001-06-01']))


FIXED = [dict(seed=i, n=3, ts=ts, what=w, lat=40., wet=x, start='2000-06-01')
         for i, ts in enumerate([1, 60, 360]) for w in ('vp', 'rh', 'q', 'svp', 'all') for x in (0, 1)]


def check(c):
    n, ts = c['n'], c['ts']
    r = np.random.default_rng(c['seed'])
    k = 1440 // ts
    if c['what'] == 'svp':
        f = get('physics', 'svp')
        t = np.sort(np.r_[r.uniform(-100, 60, 300), 0., -1e-9, 1e-9, -100, 60])
        o = np.asarray(f(t.copy()))
        close(o, ref.svp(t), 'saturation vapour pressure')
        need((o > 0).all(), 'saturation vapour pressure not positive')
        need((np.diff(o)[np.diff(t) > 1e-6] > 0).all(), 'saturation vapour pressure not increasing')
        return
    if c['what'] == 'rh':
        f = get('disaggregate', 'relative_humidity')
        t = r.uniform(-60, 45, 50)
        e = ref.svp(t) / 1000 * r.choice([r.uniform(0, 1), 1., r.uniform(1, 2)], 50)
        o = np.asarray(f(e.copy(), t.copy()))
        close(o, np.minimum(100, 100 * e * 1000 / ref.svp(t)), 'relative humidity')
        return
    if c['what'] == 'q':
        f = get('disaggregate', 'specific_humidity')
        p = r.uniform(30, 105, 50)
        e = p * r.uniform(0, .999, 50)
        o = np.asarray(f(e.copy(), p.copy()))
        close(o, ref.spec_humid(e, p), 'specific humidity')
        need((o >= 0).all() and (o < 1).all(), 'specific humidity outside [0,1)')
        return
    vp = r.uniform(5, 4000, n) if c['wet'] else r.uniform(5, 600, n)
    if c['what'] == 'vp':
        f = get('disaggregate', 'vapor_pressure')
        t = r.uniform(-30, 40, n * k)
        tm = np.arange(n) * 1440 + r.uniform(60, 700, n)
        o = np.asarray(f(vp.copy(), t.copy(), tm.copy(), n * k, ts))
        x = np.arange(n * k) * ts
        e = np.interp(x, tm, vp / 1000)
        e = np.where((x < tm[0]) | (x > tm[-1]), np.nan, np.minimum(e, ref.svp(t) / 1000))
        need(o.shape == e.shape, 'vapor pressure has %s values' % (o.shape,))
        in_ = ~np.isnan(e)
        close(o[in_], e[in_], 'vapor pressure')
        ok = ~np.isnan(o)
        le(o[ok], (ref.svp(t) / 1000)[ok], 'supersaturated')
        return
    d = daily(c['seed'], n, c['start'], vapor_pressure=vp)
    doy = day_of_year(d.index)
    g = geom(300, c['lat'])
    d['daylength'] = g['daylength'][doy - 1]
    p = params(method='mtclim', time_step=ts, utc_offset=False, elev=r.uniform(0, 3000), lon=r.uniform(-180, 180))
    o = get('disaggregate', 'disaggregate')(d.copy(), p, g, None, None)
    t, e = o['temp'].values, o['vapor_pressure'].values
    sat = ref.svp(t) / 1000
    need(np.isfinite(e).all(), 'missing vapor pressure')
    le(e, sat, 'vapor pressure above saturation')
    x = np.arange(n * k) * ts
    tm = np.array([ref.sun(g['tiny_rad_fract'][y - 1])[0] for y in doy]) + 1440 * np.arange(n) - ts
    in_ = (x >= tm[0]) & (x <= tm[-1])
    close(e[in_], np.minimum(np.interp(x, tm, vp / 1000), sat)[in_], 'vapor pressure')
    close(o['rel_humid'].values, np.minimum(100, 100 * e / sat), 'relative humidity')
    close(o['spec_humid'].values, ref.spec_humid(e, o['air_pressure'].values), 'specific humidity')
