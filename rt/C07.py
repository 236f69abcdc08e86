"""UTC mode."""
from .common import *
from . import ref

RULE = ('random records, all longitudes incl. beyond +-180, every step; prec/wind/tskc against the rolled minute series, shortwave '
        'against rolled totals and curve, minimum/maximum hours shifted, disaggregate for lon and lon+360k, local mode at two longitudes')
QUICK, THOROUGH = 150, 4000


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([2, 3, 4]), ts=rng.choice(SUB),
                   what=rng.choice(['prec', 'wind', 'tskc', 'sw', 'hours', 'wrap', 'local', 'all']),
                   lon=rng.choice([rng.uniform(-180, 180), rng.choice([-180., 180., .1, -.1, 90., -122.4])]), m=rng.choice(['uniform', 'mix', 'triangle']),
                   turns=rng.choice([-2, -1, 1, 2]))


FIXED = [dict(seed=i, n=3, ts=ts, what=w, lon=l, m='mix', turns=1)
         for i, ts in enumerate([1, 60, 180]) for w in ('prec', 'wind', 'sw', 'hours', 'wrap', 'local', 'all') for l in (-117.3, 63.2)]
COLS = ['shortwave', 'temp', 'vapor_pressure', 'rel_humid', 'air_pressure', 'spec_humid', 'tskc', 'longwave', 'prec', 'wind']


def shift(lon, per_day):
    return trunc(lon / 360.0 * per_day)


def sw_utc(sw, dl, doy, fr, ts, lon):
    n, k = len(sw), 1440 // ts
    o = shift(lon, 2880)
    tot = ref.roll_left(np.repeat(sw * dl / (ts * 60), 2880), o).reshape(n, 2880)
    cur = ref.roll_left(fr.ravel(), o).reshape(-1, 2880)
    return np.concatenate([(tot[d] * cur[doy[d] - 1]).reshape(k, 2 * ts).sum(axis=1) for d in range(n)])


def check(c):
    n, ts, lon = c['n'], c['ts'], c['lon']
    r = np.random.default_rng(c['seed'])
    k = 1440 // ts
    d = daily(c['seed'], n, '2000-12-30')
    doy = day_of_year(d.index)
    p = params(method='mtclim', time_step=ts, utc_offset=True, lon=lon, elev=200., prec_type=c['m'])
    agg = lambda x: x.reshape(-1, ts).sum(axis=1)
    w = c['what']
    if w in ('wind', 'tskc'):
        out = np.asarray(get('disaggregate', w)(d[w].values.copy(), ts, p))
        close(out, agg(ref.roll_left(np.repeat(d[w].values, 1440), shift(lon, 1440))) / ts, w + ' with a UTC shift')
        return
    if w == 'prec':
        f = get('disaggregate', 'prec')
        call = lambda step, q: np.asarray(f(d['prec'].copy(), d['t_min'].copy(), step, q, d['t_pk'].copy(), d['dur'].copy()))
        minutes = call(1, dict(p, utc_offset=False, time_step=1))
        need(minutes.shape == (n * 1440,), 'minute series has %s values' % (minutes.shape,))
        close(call(ts, p), agg(ref.roll_left(minutes, shift(lon, 1440))), 'prec with a UTC shift', rtol=1e-7)
        return
    g = geom(200, 40 + 5 * r.random())
    if w == 'sw':
        dl = g['daylength'][doy - 1]
        out = np.asarray(get('disaggregate', 'shortwave')(d['shortwave'].values.copy(), dl.copy(), pd.Index(doy), g['tiny_rad_fract'].copy(), p))
        close(out, sw_utc(d['shortwave'].values, dl, doy, g['tiny_rad_fract'], ts, lon), 'shortwave with a UTC shift', rtol=1e-7, atol=1e-7)
        return
    if w == 'hours':
        f = get('disaggregate', 'set_min_max_hour')
        a0, b0 = f(g['tiny_rad_fract'].copy(), pd.Index(doy - 1), g['daylength'], n, ts, dict(p, utc_offset=False))
        a1, b1 = f(g['tiny_rad_fract'].copy(), pd.Index(doy - 1), g['daylength'], n, ts, p)
        close(np.asarray(a1) - np.asarray(a0), np.full(n, -float(shift(lon, 1440))), 'shift of the minimum-temperature time')
        close(np.asarray(b1) - np.asarray(b0), np.full(n, -float(shift(lon, 1440))), 'shift of the maximum-temperature time')
        return
    d['daylength'] = g['daylength'][doy - 1]
    f = get('disaggregate', 'disaggregate')
    go = lambda **q: f(d.copy(), dict(p, **q), {a: b.copy() for a, b in g.items()}, None, None)
    if w == 'wrap':
        a, b = go(), go(lon=lon + 360 * c['turns'])
        if abs(abs(lon) - 180) < 1e-9:
            return
        for x in COLS:
            close(b[x].values, a[x].values, '%s at lon %r and %r' % (x, lon, lon + 360 * c['turns']), rtol=1e-6, atol=1e-6)
    elif w == 'local':
        a, b = go(utc_offset=False), go(utc_offset=False, lon=-lon + 77)
        for x in COLS:
            close(b[x].values, a[x].values, x + ' in local time at two longitudes')
    else:
        a = go()
        close(a['wind'].values, agg(ref.roll_left(np.repeat(d['wind'].values, 1440), shift(lon, 1440))) / ts, 'wind')
        close(a['tskc'].values, agg(ref.roll_left(np.repeat(d['tskc'].values, 1440), shift(lon, 1440))) / ts, 'tskc')
        close(a['shortwave'].values, sw_utc(d['shortwave'].values, d['daylength'].values, doy, g['tiny_rad_fract'], ts, lon), 'shortwave', rtol=1e-7, atol=1e-7)
        m = go(time_step=1, utc_offset=False)['prec'].values
        close(a['prec'].values, agg(ref.roll_left(m, shift(lon, 1440))), 'prec', rtol=1e-7)
