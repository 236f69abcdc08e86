"""Daily mtclim estimates."""
from .common import *
from . import ref

RULE = ('random daily records (t_min<=t_max, wet and dry incl. exactly at the threshold), parameters in range, both cloud options; each '
        'function and the state after mtclim.run')
QUICK, THOROUGH = 200, 8000


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 7, 30]), cloud=rng.choice(['default', 'cloud_deardorff', 'Cloud_Deardorff']),
                   what=rng.choice(['t_day', 'tfmax', 'tskc', 'shortwave', 'pet', 'tdew', 'vapor_pressure', 'atm_pres']))


FIXED = [dict(seed=i * 10 + j, n=7, cloud=c, what=w) for i, w in enumerate(['t_day', 'tfmax', 'tskc', 'shortwave', 'pet', 'tdew', 'vapor_pressure', 'atm_pres'])
         for j, c in enumerate(['default', 'cloud_deardorff'])]


def check(c):
    n = c['n']
    r = np.random.default_rng(c['seed'])
    p = params(lw_cloud=c['cloud'], elev=r.uniform(-400, 6000), lapse_rate=r.choice([.0065, r.uniform(.002, .01)]), tday_coef=r.uniform(0, 1),
               rain_scalar=r.uniform(.1, 1), sw_prec_thresh=r.choice([0., r.uniform(0, 5)]))
    tmin = r.uniform(-40, 25, n)
    dtr = r.choice([0., 1.], n, p=[.1, .9]) * r.uniform(0, 25, n)
    tmax = tmin + dtr
    sm = r.uniform(0, 25, n)
    prec = np.where(r.random(n) < .3, p['sw_prec_thresh'], np.where(r.random(n) < .5, 0., r.gamma(.6, 8, n)))
    A = lambda *xs: [np.array(x, float) for x in xs]
    w = c['what']
    f = get('methods.mtclim', w) if w != 'atm_pres' else get('physics', w)
    if w == 't_day':
        o = np.asarray(f(*A(tmin, tmax), p))
        close(o, ref.t_day(tmin, tmax, p['tday_coef']), 'day temperature')
        le((tmin + tmax) / 2, o, 'day temperature below the mean')
        le(o, tmax, 'day temperature above the maximum')
    elif w == 'tfmax':
        a = A(dtr, sm, prec)
        o = np.asarray(f(*a, p))
        close(o, ref.tfmax(dtr, sm, prec, p['sw_prec_thresh'], p['rain_scalar']), 'cloudy transmittance')
        need((o >= 0).all() and (o <= 1).all(), 'cloudy transmittance outside [0,1]')
        for x, y in zip(a, (dtr, sm, prec)):
            close(x, y, 'argument changed')
    elif w == 'tskc':
        t = r.uniform(0, 1, n)
        o = np.asarray(f(t.copy(), p))
        close(o, ref.tskc(t, c['cloud']), 'cloud fraction')
    elif w == 'shortwave':
        tf, vp, tt, po = r.uniform(0, 1, n), r.uniform(0, 9000, n), r.uniform(0, .9, n), r.uniform(0, 900, n)
        o = np.asarray(f(*A(tf, vp, tt, po)))
        close(o, ref.shortwave(tf, vp, tt, po), 'daily shortwave')
        need((o >= 0).all(), 'negative daily shortwave')
    elif w == 'pet':
        sw, td, dl = r.uniform(0, 600, n), r.uniform(-40, 45, n), r.uniform(0, 86400, n)
        td[r.random(n) < .2] = r.uniform(-.3, .3)
        o = np.asarray(f(*A(sw, td, dl), p))
        close(o, ref.pet(sw, td, dl, p['elev'], p['lapse_rate']), 'evapotranspiration (mm/day)', rtol=1e-6)
        need((o >= 0).all(), 'negative evapotranspiration')
    elif w == 'tdew':
        pe, sp = r.uniform(0, 20, n), np.where(r.random(n) < .4, r.uniform(0, 80, n), r.uniform(80, 3000, n))
        sp[r.random(n) < .2] = 80.
        o = np.asarray(f(*A(pe, tmin, sp, dtr)))
        close(o, ref.tdew(pe, tmin, sp, dtr), 'dewpoint')
    elif w == 'vapor_pressure':
        t = r.uniform(-60, 40, n)
        close(np.asarray(f(t.copy())), ref.svp(t), 'vapor pressure at the dewpoint')
    else:
        close([f(p['elev'], p['lapse_rate'])], [ref.atm_pres(p['elev'], p['lapse_rate'])], 'air pressure at elevation')
