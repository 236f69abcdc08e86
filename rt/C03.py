"""Sub-daily temperature."""
from .common import *
from . import ref

RULE = ('random t_min<=t_max (a tenth equal), radiation masks with sunrise/sunset on and off the step grid, polar rows, '
        'fractions in (0,1), every step, adjoining days given or not; half through disaggregate with solar_geom; a few whole runs against the state\'s last day')
QUICK, THOROUGH = 150, 4000


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        if rng.random() < .03:
            yield dict(seed=rng.randrange(1 << 30), n=rng.choice([2, 4]), ts=rng.choice([20, 60, 120, 240, 360]), frac=rng.uniform(.1, .9), start='2001-06-01', state=1)
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 3, 6]), ts=rng.choice(SUB),
                   frac=rng.choice([.67, .5, .25, rng.uniform(.02, .98)]), polar=rng.random() < .2,
                   begin=rng.random() < .6, end=rng.random() < .6, whole=rng.random() < .4, lat=rng.uniform(-89, 89),
                   start=rng.choice(['1950-01-01', '2000-12-29', '2001-06-01']))


FIXED = [dict(seed=50 + i, n=3, ts=ts, frac=.6, start='2000-06-01', state=1) for i, ts in enumerate([30, 180, 360])] + [dict(seed=i, n=4, ts=ts, frac=.5, polar=q, begin=b, end=b, whole=w, lat=50., start='2000-06-01')
         for i, ts in enumerate([1, 60, 180]) for q in (0, 1) for b in (0, 1) for w in (0, 1)]


def through_state(c):
    """a run: the day before the record is the last day of the state"""
    n, ts = c['n'], c['ts']
    fo, st, do = dataset(c['seed'], n, 1, 2, start=c['start'])
    p = config(fo, st, do, time_step=ts, out_precision='f8', tmax_daylength_fraction=c['frac'], outs=['temp'])
    o = single(run(p)[0])
    for j in (0, 1):
        tmin, tmax, smin, smax = (x.values[:, 0, j] for x in (fo.t_min, fo.t_max, st.t_min, st.t_max))
        g = geom(float(do.elev[0, j]), float(do.lat[0]))
        d = pd.DataFrame({k: np.ones(n) for k in ('prec', 'wind', 'tskc', 'shortwave', 'vapor_pressure')}, index=pd.DatetimeIndex(fo.time.values))
        d['t_min'], d['t_max'] = tmin, tmax
        d['daylength'] = g['daylength'][day_of_year(d.index) - 1]
        q = params(method='mtclim', time_step=ts, utc_offset=False, tmax_daylength_fraction=c['frac'], calendar='standard', elev=float(do.elev[0, j]))
        want = get('disaggregate', 'disaggregate')(d, q, g, [smin[-1], smax[-1]], None)['temp'].values
        close(o['temp'].values[:, 0, j], want, 'temperature of a run against its record with the last day of the state before it')


def check(c):
    if c.get('state'):
        return through_state(c)
    n, ts = c['n'], c['ts']
    r = np.random.default_rng(c['seed'])
    d = daily(c['seed'], n, c['start'])
    doy = day_of_year(d.index)
    tmin, tmax = d['t_min'].values, d['t_max'].values
    k = 1440 // ts
    p = params(method='mtclim', time_step=ts, utc_offset=False, lon=r.uniform(-180, 180), tmax_daylength_fraction=c['frac'],
               elev=300., calendar='standard')
    tb = [tmin[0] - r.uniform(0, 9), tmin[0] + r.uniform(0, 9)] if c['begin'] else None
    te = [tmin[-1] - r.uniform(0, 9), tmin[-1] + r.uniform(0, 9)] if c['end'] else None
    b4 = tb or [tmin[0], tmax[0]]
    af = te or [tmin[-1], tmax[-1]]
    if c['whole'] and n > 1:
        g = geom(300, c['lat'])
        d['daylength'] = g['daylength'][doy - 1]
        fr = g['tiny_rad_fract']
        o = get('disaggregate', 'disaggregate')(d.copy(), p, g, None if tb is None else list(tb), None if te is None else list(te))
        out = o['temp'].values
    else:
        fr = np.zeros((366, 2880))
        for i in range(366):
            if c['polar'] and r.random() < .4:
                fr[i] = r.choice([0, 1])
                continue
            q = min(ts, 60)
            a = int(r.integers(60 // q + 1, 600 // q)) * q * 2      # sunrise on the step grid
            b = a + int(r.integers(2, 300 // q)) * q * 4 if 300 // q > 2 else a + 8 * q
            b = min(b, 2878)
            fr[i, a + 1:b + 1] = 1
        f1, f2 = get('disaggregate', 'set_min_max_hour'), get('disaggregate', 'temp')
        a, b = f1(fr, pd.Index(doy - 1), np.zeros(366), n, ts, p)
        a, b = np.asarray(a, float), np.asarray(b, float)
        out = np.asarray(f2(tmin.copy(), tmax.copy(), n * k, a, b, ts, tb, te))
        sun = [ref.sun(fr[y - 1]) for y in doy]
        rise = np.array([x[0] for x in sun]) + 1440 * np.arange(n)
        sett = np.array([x[1] for x in sun]) + 1440 * np.arange(n)
        close(a, rise - ts, 'time of the daily minimum')
        close(b, rise + c['frac'] * (sett - rise) - ts, 'time of the daily maximum')
    need(out.shape == (n * k,), 'temp has %s values for %d steps' % (out.shape, n * k))
    lo = np.minimum(np.minimum(np.r_[b4[0], tmin[:-1]], tmin), np.r_[tmin[1:], af[0]])
    hi = np.maximum(np.maximum(np.r_[b4[1], tmax[:-1]], tmax), np.r_[tmax[1:], af[1]])
    le(np.repeat(lo, k), out, 'temperature below the extremes of the neighbouring days')
    le(out, np.repeat(hi, k), 'temperature above the extremes of the neighbouring days')
    for dd in range(n):
        rise, sett = ref.sun(fr[doy[dd] - 1])
        for t, v, w in ((rise - ts, tmin[dd], 'minimum'), (rise + c['frac'] * (sett - rise) - ts, tmax[dd], 'maximum')):
            s = (t + 1440 * dd) / ts
            if s == int(s) and 0 <= s < n * k:
                close([out[int(s)]], [v], 'temperature at the time of the daily %s of day %d' % (w, dd), rtol=1e-9, atol=1e-7)
