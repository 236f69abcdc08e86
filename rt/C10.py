"""The dewpoint iteration."""
from .common import *
from . import ref

RULE = ('random daily records of 1-40 days, tolerances 1e-8..100 (zero, one and many iterations), both cloud options; full state after '
        'mtclim.run against an independent iteration')
QUICK, THOROUGH = 200, 8000


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 3, 10, 40]), tol=rng.choice([1e-8, 1e-6, 1e-3, .1, 1., 5., 1e2]),
                   cloud=rng.choice(['default', 'cloud_deardorff']), dry=rng.random() < .3)


FIXED = [dict(seed=i, n=10, tol=t, cloud='default', dry=d) for i, t in enumerate([1e-6, 1e-2, 1., 100.]) for d in (0, 1)]


def frame(seed, n, dry):
    r = np.random.default_rng(seed)
    d = pd.DataFrame(index=pd.date_range('2000-02-01', periods=n))
    d['t_min'] = r.uniform(-15, 15, n)
    d['t_max'] = d['t_min'] + r.uniform(0, 20, n)
    d['dtr'] = d['t_max'] - d['t_min']
    d['smoothed_dtr'] = r.uniform(3, 18, n)
    d['prec'] = np.where(r.random(n) < .4, 0, r.gamma(.6, 8, n))
    d['seasonal_prec'] = r.uniform(0, 120, n) if dry else r.uniform(200, 2000, n)
    d['tt_max'] = r.uniform(.2, .8, n)
    d['potrad'] = r.uniform(50, 600, n)
    d['daylength'] = r.uniform(8000, 70000, n)
    return d


def check(c):
    d = frame(c['seed'], c['n'], c['dry'])
    p = params(method='mtclim', lw_cloud=c['cloud'], tdew_tol=c['tol'], elev=500., sw_prec_thresh=0.0)
    arrs = {k: d[k].values.copy() for k in d}
    e = ref.mtclim(arrs, p)
    if e is None:
        raise Inapplicable('the reference iteration does not converge')
    near = any(abs(g - c['tol']) < 1e-9 * max(1, c['tol']) for g in e['gaps'])
    o = get('methods.mtclim', 'run')(d.copy(), p)
    v = lambda k: np.asarray(o[k], float)
    # mutual consistency of what is reported
    close(v('vapor_pressure'), ref.svp(v('tdew')), 'vapor pressure is not saturation at the reported dewpoint')
    close(v('shortwave'), ref.shortwave(e['tfmax'], v('vapor_pressure'), arrs['tt_max'], arrs['potrad']), 'shortwave not the estimate for the reported vapor pressure')
    close(v('pet'), ref.pet(v('shortwave'), e['t_day'], arrs['daylength'], p['elev'], p['lapse_rate']), 'evapotranspiration not the estimate for the reported shortwave', rtol=1e-6)
    for k in ('t_day', 'tfmax', 'tskc'):
        close(v(k), e[k], k)
    for k in ('t_min', 't_max', 'prec'):
        close(v(k), arrs[k], 'input %s changed' % k, rtol=0, atol=0)
    if not near:
        close(v('tdew'), e['tdew'], 'dewpoint (last iterate)', rtol=1e-6, atol=1e-6 if c['tol'] > 1e-5 else 1e-7)
