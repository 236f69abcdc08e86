"""Whole runs of the model, judged by one property at a time.

A small domain is run through MetSim (and once more at a daily step where the daily estimates are needed); the statement of the
property is then evaluated on the written values of every active cell."""
from .common import *
from . import ref
from .C01 import weights

RULE = ('; a few whole runs (random small domain, mask, method, longwave and precipitation options, time mode, steps), the statement evaluated '
        'on the written values of every active cell')
PROPS = ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C17', 'C21', 'C22')
DAILY = ('C02', 'C05', 'C07', 'C08', 'C09', 'C10', 'C17', 'C22')
STEPS_ = [1440, 360, 240, 180, 120, 60, 30, 20]


def case(rng, prop):
    m = rng.choice(['mtclim', 'mtclim', 'passthrough', 'daylight'])
    if prop in ('C08', 'C09', 'C10', 'C17'):
        m, ts = 'mtclim', 1440
    else:
        ts = rng.choice(STEPS_[1:])
    return dict(whole_run=1, seed=rng.randrange(1 << 30), ny=rng.randrange(1, 3), nx=rng.randrange(1, 3), n=rng.choice([2, 3, 5]), ts=ts, method=m,
                m=rng.choice(['uniform', 'mix', 'triangle']), utc=prop == 'C07' or (prop in ('C01', 'C05') and rng.random() < .4), lw=rng.choice(sorted(ref.EMIS)),
                cl=rng.choice(['default', 'cloud_deardorff']), wind=rng.random() < .8, longwave=prop in ('C06', 'C22') and rng.random() < .4,
                start=rng.choice(['1950-01-01', '2000-12-30', '2001-06-01', '1999-12-30', '2000-02-27']), coef=rng.choice([.45, rng.uniform(.1, .9)]),
                thresh=rng.choice([0., 0., 2.]), lapse=rng.choice([.0065, rng.uniform(.003, .01)]))


def fixed(prop):
    r = random.Random('whole' + prop)
    return [case(r, prop) for _ in range(4)]


class Cell(object):
    pass


def smooth(x, w, n):
    return np.array([x[len(x) - n + i - w + 1:len(x) - n + i + 1].mean() for i in range(n)])


def cells(prop, c):
    n, ts, ny, nx = c['n'], c['ts'], c['ny'], c['nx']
    r = np.random.default_rng(c['seed'] + 3)
    mask = np.where(r.random((ny, nx)) < .8, 1., 0.)
    mask.flat[0] = 1
    lat = np.sort(r.uniform(-62, 64, ny))
    lon = np.sort(r.uniform(-180, 180, nx))
    extra = (['shortwave', 'vapor_pressure', 'tskc'] if c['method'] != 'mtclim' else []) + (['longwave'] if c['longwave'] else [])
    fo, st, do = dataset(c['seed'], n, ny, nx, start=c['start'], lat=lat, lon=lon, mask=mask, extra=extra)
    if not c['wind']:
        fo = fo.drop_vars('wind')
    kw = dict(method='mtclim' if c['method'] == 'mtclim' else 'passthrough', prec_type=c['m'], utc_offset=bool(c['utc']), out_precision='f8', lw_type=c['lw'],
              lw_cloud=c['cl'], tday_coef=c['coef'], sw_prec_thresh=c['thresh'], lapse_rate=c['lapse'])
    if c['method'] == 'daylight':
        kw['sw_averaging'] = 'daylight'
    drop = [] if c['wind'] else ['wind']
    go = lambda step, **q: single(run(config(fo, st, do, time_step=step, outs=[v for v in (ALLDAY if step == 1440 else ALLSUB) if v not in drop], **dict(kw, **q)))[0])
    sub = go(ts) if ts < 1440 else None
    day = go(1440) if prop in DAILY else None
    t = pd.DatetimeIndex(fo.time.values)
    for i in range(ny):
        for j in range(nx):
            if not mask[i, j] > 0:
                continue
            x = Cell()
            x.c, x.n, x.ts, x.k, x.t, x.kw = c, n, ts, 1440 // ts, t, kw
            x.lat, x.lon, x.elev = lat[i], lon[j], float(do.elev[i, j])
            x.f = {v: fo[v].values[:, i, j] for v in fo.data_vars}
            x.s = {v: st[v].values[:, i, j] for v in st.data_vars}
            x.pk, x.dur = (do[v].values[t.month - 1, i, j] for v in ('t_pk', 'dur'))
            x.o = None if sub is None else {v: sub[v].values[:, i, j] for v in sub.data_vars}
            x.d = None if day is None else {v: day[v].values[:, i, j] for v in day.data_vars}
            x.doy = day_of_year(t)
            x.where = ' at cell %d,%d' % (i, j)
            if x.o is not None:
                need(all(len(v) == n * x.k for v in x.o.values()), 'not one value per step')
                # reported in Pa or (a known finding of C12) in kPa
                x.e = x.o['vapor_pressure'] / (1000. if np.nanmax(x.o['vapor_pressure']) > 12 else 1.)
            yield x


def C01(x):
    out, P = x.o['prec'], x.f['prec']
    le(0, out, 'negative precipitation' + x.where, 1e-9)
    close(out.sum(), P.sum(), 'total over the record' + x.where, rtol=1e-7)
    if x.c['utc']:
        return
    close(out.reshape(x.n, x.k).sum(axis=1), P, 'daily total' + x.where, rtol=1e-7)
    exp = np.zeros((x.n, 1440))
    for d in range(x.n):
        w = np.ones(1440)
        if not (x.c['m'] == 'uniform' or (x.c['m'] == 'mix' and x.f['t_min'][d] < 0)):
            if not 3 <= x.pk[d] <= 1436 or x.dur[d] < 6:
                return
            w = weights(x.pk[d], x.dur[d])
        exp[d] = P[d] * w / w.sum()
    close(out, exp.reshape(x.n * x.k, x.ts).sum(axis=1), 'share of the day in each step' + x.where, rtol=1e-6, atol=1e-9)


def mean24(x):
    """the day's mean over 24 hours"""
    if x.c['method'] == 'mtclim':
        return x.d['shortwave']
    return x.f['shortwave'] * (g_(x)['daylength'][x.doy - 1] / 86400. if x.c['method'] == 'daylight' else 1)


def g_(x):
    return geom(x.elev, x.lat, x.c['lapse'])


def C02(x):
    m = mean24(x)
    g = g_(x)
    close(x.d['shortwave'], m, 'daily shortwave' + x.where, rtol=1e-7)
    close(x.o['shortwave'], ref.shortwave_sub(m, np.full(x.n, 86400.), x.doy, g['tiny_rad_fract'], x.ts), 'sub-daily shortwave' + x.where, rtol=1e-6, atol=1e-6)
    close(x.o['shortwave'].reshape(x.n, x.k).mean(axis=1), m, 'energy of the day' + x.where, rtol=5e-3, atol=.01)


def C04(x):
    t, e = x.o['temp'], x.e
    sat = ref.svp(t) / 1000
    le(e, sat, 'vapor pressure above saturation' + x.where, 1e-9)
    close(x.o['rel_humid'], np.minimum(100, 100 * e / sat), 'relative humidity' + x.where, rtol=1e-6)
    close(x.o['spec_humid'], ref.spec_humid(e, x.o['air_pressure']), 'specific humidity' + x.where, rtol=1e-6)
    if 'vapor_pressure' in x.f:
        g = g_(x)
        s = np.arange(x.n * x.k) * x.ts
        tm = np.array([ref.sun(g['tiny_rad_fract'][y - 1])[0] for y in x.doy]) + 1440 * np.arange(x.n) - x.ts
        in_ = (s >= tm[0]) & (s <= tm[-1])
        close(e[in_], np.minimum(np.interp(s, tm, x.f['vapor_pressure'] / 1000), sat)[in_], 'vapor pressure' + x.where, rtol=1e-6)


def C05(x):
    for v, w in (('wind', x.f.get('wind')), ('tskc', x.d['tskc'])):
        if w is None:
            continue
        o = x.o[v]
        if not x.c['utc']:
            close(o, np.repeat(w, x.k), '%s is not the day value' % v + x.where, rtol=1e-7)
        else:
            le(w.min(), o, '%s below the smallest daily value' % v + x.where)
            le(o, w.max(), '%s above the largest daily value' % v + x.where)
            close(o.mean(), w.mean(), 'record mean of %s' % v + x.where, rtol=1e-7)
    if x.c['method'] != 'mtclim':
        close(x.d['tskc'], x.f['tskc'], 'daily cloud fraction is not the supplied one' + x.where)


def C06(x):
    exp = ref.longwave(x.o['temp'], x.e, x.o['tskc'], x.c['lw'], x.c['cl'])
    if 'longwave' in x.f:
        exp = exp * np.repeat(x.f['longwave'] / exp.reshape(x.n, x.k).mean(axis=1), x.k)
    close(x.o['longwave'], exp, 'longwave' + x.where, rtol=1e-6)


def C07(x):
    from .C07 import shift, sw_utc
    agg = lambda v: v.reshape(-1, x.ts).sum(axis=1)
    off = shift(x.lon, 1440)
    for v, w in (('wind', x.f.get('wind')), ('tskc', x.d['tskc'])):
        if w is not None:
            close(x.o[v], agg(ref.roll_left(np.repeat(w, 1440), off)) / x.ts, v + ' with a UTC shift' + x.where, rtol=1e-7)
    if x.c['m'] == 'uniform':
        close(x.o['prec'], agg(ref.roll_left(np.repeat(x.f['prec'] / 1440, 1440), off)), 'prec with a UTC shift' + x.where, rtol=1e-7)
    g = g_(x)
    close(x.o['shortwave'], sw_utc(mean24(x), np.full(x.n, 86400.), x.doy, g['tiny_rad_fract'], x.ts, x.lon), 'shortwave with a UTC shift' + x.where, rtol=1e-6, atol=1e-6)


def C08(x):
    lat, i = x.lat * .01745329, np.minimum(x.doy, 365) - 1
    a = -np.tan(lat) * np.tan(ref.declination(i))
    close(x.d['daylength'], np.minimum(2 * np.arccos(np.clip(a, -1, 1)) * 13750.9871, 86400), 'daylength' + x.where, rtol=1e-6, atol=.05)


def states(x):
    """the daily record with its antecedent windows, and the daily simulation"""
    g = g_(x)
    y = x.doy - 1
    cat = lambda v: np.r_[x.s[v], x.f[v]]
    a = {v: x.f[v] for v in ('t_min', 't_max', 'prec')}
    a['dtr'] = x.f['t_max'] - x.f['t_min']
    a['smoothed_dtr'] = smooth(cat('t_max') - cat('t_min'), 30, x.n)
    a['seasonal_prec'] = smooth(cat('prec'), 90, x.n) * 365.25
    a['tt_max'], a['potrad'], a['daylength'] = g['tt_max0'][y], g['potrad'][y], g['daylength'][y]
    p = dict(x.kw, elev=x.elev, rain_scalar=.75, tdew_tol=1e-6)
    return a, ref.mtclim(a, p)


def C09(x):
    a, e = states(x)
    if e is None:
        raise Inapplicable('the reference iteration does not converge')
    need((a['daylength'] > 0).all(), 'daylength')
    for v, w in (('t_min', a['t_min']), ('t_max', a['t_max']), ('prec', a['prec']), ('tskc', e['tskc']), ('vapor_pressure', e['vapor_pressure']),
                 ('pet', e['pet']), ('shortwave', e['shortwave'] * a['daylength'] / 86400)):
        close(x.d[v], w, 'daily %s of a run' % v + x.where, rtol=2e-5, atol=1e-6)


def C21(x):
    close(x.o['air_pressure'], ref.air_pressure(x.o['temp'], x.elev, x.c['lapse']), 'air pressure' + x.where, rtol=1e-7)


def C22(x):
    for v in x.o:
        need(np.isfinite(x.o[v]).all(), 'missing values in %s' % v + x.where)
    for f in (C01, C02, C04, C05, C06, C21):
        f(x)


CHECKS = dict(C01=C01, C02=C02, C04=C04, C05=C05, C06=C06, C07=C07, C08=C08, C09=C09, C10=C09, C17=C09, C21=C21, C22=C22)


def check(prop, c):
    f = CHECKS[prop]
    for x in cells(prop, c):
        f(x)
