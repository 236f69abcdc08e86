"""Air pressure."""
from .common import *
from . import ref

RULE = 'random temperature series, elevations -400..8848 m (zero included), lapse rates; pressure() and the disaggregate column'
QUICK, THOROUGH = 200, 8000


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), elev=rng.choice([0., rng.uniform(-400, 8848), rng.uniform(0, 3000)]), lr=rng.choice([.0065, rng.uniform(0, .012)]),
                   whole=rng.random() < .2)


FIXED = [dict(seed=1, elev=e, lr=l, whole=w) for e in (0., 1500., 8000., -300.) for l in (.0065, .004) for w in (0, 1)]


def check(c):
    r = np.random.default_rng(c['seed'])
    if c['whole']:
        d = daily(c['seed'], 3, '2001-04-01')
        g = geom(200, 44)
        d['daylength'] = g['daylength'][day_of_year(d.index) - 1]
        o = get('disaggregate', 'disaggregate')(d, params(method='mtclim', time_step=60, elev=c['elev'], lapse_rate=c['lr']), g, None, None)
        t, out = o['temp'].values, o['air_pressure'].values
    else:
        t = np.sort(r.uniform(-60, 50, 60))
        out = np.asarray(get('disaggregate', 'pressure')(t.copy(), c['elev'], c['lr']))
        if c['elev'] > 0:
            need((np.diff(out) >= 0).all(), 'air pressure falls with temperature')
    close(out, ref.air_pressure(t, c['elev'], c['lr']), 'air pressure', rtol=1e-9)
    need((out > 0).all(), 'air pressure not positive')
    if c['elev'] == 0:
        close(out, np.full(len(t), 101.325), 'pressure at sea level')
    if c['elev'] > 0:
        need((out < 101.325).all(), 'pressure above standard at positive elevation')
