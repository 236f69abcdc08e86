"""Longwave."""
from .common import *
from . import ref

RULE = ('random temperature, vapour pressure, cloud series; all emissivity x cloud options in random letter case; with and without '
        'a supplied daily mean; every step; a third through disaggregate')
QUICK, THOROUGH = 200, 6000


def warm():
    geom(0, 45)


def mix(rng, s):
    return ''.join(ch.upper() if rng.random() < .5 else ch for ch in s)


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([2, 3]), ts=rng.choice(SUB), lw=mix(rng, rng.choice(sorted(ref.EMIS))),
                   cl=mix(rng, rng.choice(sorted(ref.CLOUD))), daily=rng.random() < .4, whole=rng.random() < .35)


FIXED = [dict(seed=i, n=2, ts=180, lw=lw, cl=cl, daily=i % 2, whole=0)
         for i, (lw, cl) in enumerate((a, b) for a in sorted(ref.EMIS) for b in sorted(ref.CLOUD))]


def check(c):
    n, ts = c['n'], c['ts']
    r = np.random.default_rng(c['seed'])
    k = 1440 // ts
    p = params(method='mtclim', time_step=ts, utc_offset=False, lw_type=c['lw'], lw_cloud=c['cl'], elev=200.)
    L = r.uniform(150, 450, n)
    if c['whole']:
        d = daily(c['seed'], n, '2001-04-01')
        if c['daily']:
            d['longwave'] = L
        g = geom(200, 44)
        d['daylength'] = g['daylength'][day_of_year(d.index) - 1]
        o = get('disaggregate', 'disaggregate')(d.copy(), p, g, None, None)
        t, e, s, out = (o[x].values for x in ('temp', 'vapor_pressure', 'tskc', 'longwave'))
    else:
        t = r.uniform(-50, 45, n * k)
        e = ref.svp(t) / 1000 * r.uniform(.05, 1, n * k)
        s = np.repeat(r.uniform(0, 1, n), k)
        if c['seed'] % 3 == 0:
            s[:] = c['seed'] % 2
        ser = pd.Series(L, index=pd.date_range('2001-04-01', periods=n)) if c['daily'] else None
        a, b, q = t.copy(), e.copy(), s.copy()
        out = np.asarray(get('disaggregate', 'longwave')(a, b, q, p, ser))
        close(a, t, 'temperature argument changed')
        close(b, e, 'vapor pressure argument changed')
        close(q, s, 'cloud argument changed')
    exp = ref.longwave(t, e, s, c['lw'], c['cl'])
    need(out.shape == exp.shape, 'longwave has %s values' % (out.shape,))
    if c['daily']:
        m = exp.reshape(n, k).mean(axis=1)
        exp = exp * np.repeat(L / m, k)
        close(out.reshape(n, k).mean(axis=1), L, 'daily mean of longwave', rtol=1e-7)
    close(out, exp, 'longwave', rtol=1e-7)
    need((out > 0).all(), 'longwave not positive')
