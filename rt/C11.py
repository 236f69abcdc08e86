"""Passthrough."""
from .common import *
from . import ref
from .C10 import frame

RULE = ('random daily records with every kind of subset of supplied variables; passthrough.run column by column; a fifth end to end '
        'through MetSim.run, daily and sub-daily, with and without daylight averaging, also mtclim daily output')
QUICK, THOROUGH = 200, 6000
OPT = ['t_day', 'tfmax', 'tskc', 'pet', 'tdew', 'vapor_pressure']


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 3, 10]), given=[v for v in OPT if rng.random() < .5], dry=rng.random() < .3,
                   cloud=rng.choice(['default', 'cloud_deardorff']), mode=rng.choice(['fn'] * 12 + ['daily', 'sub', 'mtclim']),
                   day=rng.random() < .5, lw=rng.random() < .3, ts=rng.choice([60, 180, 360]))


FIXED = [dict(seed=i, n=4, given=g, dry=d, cloud='cloud_deardorff', mode='fn', day=0, lw=0, ts=60)
         for i, g in enumerate([[], OPT] + [[v] for v in OPT] + [[v for v in OPT if v != w] for w in OPT]) for d in (0, 1)] + \
        [dict(seed=i, n=5, given=g, dry=0, cloud='cloud_deardorff', mode=m, day=dd, lw=0, ts=60)
         for i, (m, dd) in enumerate([('daily', 0), ('daily', 1), ('sub', 0), ('sub', 1), ('mtclim', 0)]) for g in (['tskc'], ['vapor_pressure', 'pet'])] + \
        [dict(seed=1, n=3, given=[], dry=0, cloud='default', mode='nosw', day=0, lw=0, ts=60)]


def estimates(a, p):
    """fill in what is missing from what is in use"""
    o = dict(a)
    o.setdefault('t_day', ref.t_day(o['t_min'], o['t_max'], p['tday_coef']))
    if 'tfmax' not in o:
        o['tfmax'] = ref.tfmax(o['dtr'], o['smoothed_dtr'], o['prec'], p['sw_prec_thresh'], p['rain_scalar'])
    if 'tskc' not in o:
        o['tskc'] = ref.tskc(o['tfmax'], p['lw_cloud'])
    if 'pet' not in o:
        o['pet'] = ref.pet(o['shortwave'], o['t_day'], o['daylength'], p['elev'], p['lapse_rate'])
    if 'tdew' not in o:
        o['tdew'] = ref.tdew(o['pet'], o['t_min'], o['seasonal_prec'], o['dtr'])
    if 'vapor_pressure' not in o:
        o['vapor_pressure'] = ref.svp(o['tdew'])
    return o


def check(c):
    r = np.random.default_rng(c['seed'])
    n = c['n']
    f = get('methods.passthrough', 'run')
    if c['mode'] in ('fn', 'nosw'):
        d = frame(c['seed'], n, c['dry'])
        p = params(method='passthrough', lw_cloud=c['cloud'], elev=700., sw_prec_thresh=0.0)
        if c['mode'] == 'nosw':
            try:
                f(d.copy(), p)
            except Exception:
                return
            raise Fail('passthrough ran without shortwave')
        rngs = {'t_day': (-5, 20), 'tfmax': (.1, .9), 'tskc': (0, .9), 'pet': (.1, 6), 'tdew': (-15, 10), 'vapor_pressure': (200, 1500)}
        d['shortwave'] = r.uniform(30, 500, n)
        d['wind'] = r.uniform(0, 9, n)
        for v in c['given']:
            d[v] = r.uniform(*rngs[v], n)
        a = {k: d[k].values.copy() for k in d}
        e = estimates(a, p)
        o = f(d.copy(), p)
        for k in e:
            if k == 'seasonal_prec':
                continue
            if k not in o:
                raise Fail('column %s missing after passthrough' % k)
            close(o[k].values, e[k], 'passthrough %s (%s)' % (k, 'supplied' if k in a else 'estimated'), rtol=1e-7 if k in a else 1e-6)
        return
    sub = c['mode'] == 'sub'
    m = 'mtclim' if c['mode'] == 'mtclim' else 'passthrough'
    extra = [] if m == 'mtclim' else ['shortwave'] + c['given'] + (['longwave'] if c['lw'] and sub else [])
    n = max(n, 2)
    fo, st, do = dataset(c['seed'], n, 1, 2, extra=extra)
    kw = dict(method=m, time_step=c['ts'] if sub else 1440, out_precision='f8', lw_cloud=c['cloud'])
    if c['day'] and m == 'passthrough':
        kw['sw_averaging'] = 'daylight'
    out, ms = run(config(fo, st, do, outs=(ALLSUB if sub else ALLDAY), **kw))
    o = single(out)
    doy = day_of_year(pd.DatetimeIndex(fo.time.values))
    for j in range(2):
        cell = lambda ds, k: ds[k].values[:, 0, j]
        g = geom(float(do.elev.values[0, j]), float(do.lat.values[0]))
        dl = g['daylength'][doy - 1]
        if m == 'mtclim':
            dd = {k: cell(fo, k) for k in ('t_min', 't_max', 'prec')}
            x = lambda k: np.r_[cell(st, k), cell(fo, k)]
            rng_ = x('t_max') - x('t_min')
            dd['dtr'] = rng_[90:]
            dd['smoothed_dtr'] = np.array([rng_[90 + i - 29:91 + i].mean() for i in range(n)])
            dd['seasonal_prec'] = np.array([365.25 * x('prec')[90 + i - 89:91 + i].mean() for i in range(n)])
            dd.update(tt_max=g['tt_max0'][doy - 1], potrad=g['potrad'][doy - 1], daylength=dl)
            e = ref.mtclim(dd, params(lw_cloud=c['cloud'], elev=float(do.elev.values[0, j])))
            if e is None:
                raise Inapplicable('no convergence')
            close(cell(o, 'shortwave'), e['shortwave'] * dl / 86400, 'mtclim daily shortwave is not the 24-hour mean', rtol=1e-5, atol=1e-4)
            continue
        sw = cell(fo, 'shortwave')
        day24 = sw * dl / 86400 if c['day'] else sw
        if sub:
            k = 1440 // c['ts']
            close(cell(o, 'shortwave').reshape(n, k).mean(axis=1), day24, 'sub-daily shortwave does not average to the daily value', rtol=5e-3, atol=.2)
            if c['lw']:
                close(cell(o, 'longwave').reshape(n, k).mean(axis=1), cell(fo, 'longwave'), 'sub-daily longwave does not average to the supplied value', rtol=1e-5)
            if 'tskc' in c['given']:
                close(cell(o, 'tskc'), np.repeat(cell(fo, 'tskc'), k), 'supplied cloud fraction', rtol=1e-6)
        else:
            close(cell(o, 'shortwave'), day24, 'daily shortwave', rtol=1e-6)
            for v in ['t_min', 't_max', 'prec', 'wind'] + [x for x in c['given'] if x in ALLDAY]:
                close(cell(o, v), cell(fo, v), 'supplied %s in daily output' % v, rtol=1e-6)
