"""Disaggregation wires each variable to its own daily source."""
from .common import *
from . import ref

RULE = ('random records, parameter sets, wind / longwave / storm columns present or absent, every step, both time modes and stamp '
        'conventions; every column against the functions of the daily columns and of the table itself')
QUICK, THOROUGH = 160, 5000


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([2, 3, 5]), ts=rng.choice([t for t in SUB if t > 4] + [1]), m=rng.choice(['uniform', 'mix', 'triangle']), wind=rng.random() < .6,
                   lw=rng.random() < .4, storm=True, pe=rng.random() < .4, method=rng.choice(['mtclim', 'passthrough', 'daylight']),
                   lwt=rng.choice(sorted(ref.EMIS)), lwc=rng.choice(sorted(ref.CLOUD)), elev=rng.uniform(0, 3000), lat=rng.uniform(-70, 70),
                   adj=rng.random() < .5, start=rng.choice(['1950-01-01', '2000-12-29']))


FIXED = [dict(seed=i, n=3, ts=ts, m='mix', wind=w, lw=l, storm=1, pe=q, method='mtclim', lwt='prata', lwc='default', elev=900., lat=45., adj=1, start='2000-02-27')
         for i, ts in enumerate([1, 60, 360]) for w in (0, 1) for l in (0, 1) for q in (0, 1)]


def check(c):
    n, ts = c['n'], c['ts']
    k = 1440 // ts
    r = np.random.default_rng(c['seed'])
    d = daily(c['seed'], n, c['start'])
    if not c['wind']:
        del d['wind']
    if c['lw']:
        d['longwave'] = r.uniform(150, 450, n)
    doy = day_of_year(d.index)
    g = geom(c['elev'], c['lat'])
    d['daylength'] = g['daylength'][doy - 1]
    p = params(method='mtclim' if c['method'] == 'mtclim' else 'passthrough', time_step=ts, utc_offset=False, prec_type=c['m'], period_ending=c['pe'],
               lw_type=c['lwt'], lw_cloud=c['lwc'], elev=c['elev'], lat=c['lat'], lon=r.uniform(-180, 180))
    if c['method'] == 'daylight':
        p['sw_averaging'] = 'daylight'
    tb = [float(d.t_min.iloc[0]) - 2, float(d.t_max.iloc[0]) + 1] if c['adj'] else None
    te = [float(d.t_min.iloc[-1]) - 1, float(d.t_max.iloc[-1]) + 2] if c['adj'] else None
    arg = d.copy()
    o = get('disaggregate', 'disaggregate')(arg, p, {a: b.copy() for a, b in g.items()}, tb, te)
    need(len(o) == n * k, '%d rows for %d steps' % (len(o), n * k))
    exp_ix = d.index[0] + pd.to_timedelta((np.arange(n * k) + (1 if c['pe'] else 0)) * ts, unit='min')
    need((o.index == exp_ix).all(), 'time stamps of the sub-daily table')
    for col in d:
        close(arg[col].values, d[col].values, 'daily column %s changed' % col, rtol=0, atol=0)
    need(('wind' in o) == bool(c['wind']), 'wind column present/absent')
    for col in o:
        need(np.isfinite(o[col].values).all(), 'missing values in %s' % col)
    v = lambda x: o[x].values
    rep = lambda x: np.repeat(d[x].values, k)
    close(v('tskc'), rep('tskc'), 'tskc')
    if c['wind']:
        close(v('wind'), rep('wind'), 'wind')
    close(v('prec').reshape(n, k).sum(axis=1), d['prec'].values, 'prec')
    dl = d['daylength'].values if c['method'] != 'passthrough' else np.full(n, 86400.)
    close(v('shortwave'), ref.shortwave_sub(d['shortwave'].values, dl, doy, g['tiny_rad_fract'], ts), 'shortwave', rtol=1e-7, atol=1e-6)
    close(v('rel_humid'), np.minimum(100, 100 * v('vapor_pressure') * 1000 / ref.svp(v('temp'))), 'rel_humid')
    close(v('air_pressure'), ref.air_pressure(v('temp'), c['elev'], p['lapse_rate']), 'air_pressure')
    close(v('spec_humid'), ref.spec_humid(v('vapor_pressure'), v('air_pressure')), 'spec_humid')
    lw = ref.longwave(v('temp'), v('vapor_pressure'), v('tskc'), c['lwt'], c['lwc'])
    if c['lw']:
        lw = lw * np.repeat(d['longwave'].values / lw.reshape(n, k).mean(axis=1), k)
    close(v('longwave'), lw, 'longwave')
    f = get('disaggregate', 'temp')
    sun = [ref.sun(g['tiny_rad_fract'][y - 1]) for y in doy]
    rise = np.array([x[0] for x in sun]) + 1440 * np.arange(n)
    sett = np.array([x[1] for x in sun]) + 1440 * np.arange(n)
    tt = f(d['t_min'].values.copy(), d['t_max'].values.copy(), n * k, rise - ts, rise + p['tmax_daylength_fraction'] * (sett - rise) - ts, ts, tb, te)
    close(v('temp'), tt, 'temp')
    vp = get('disaggregate', 'vapor_pressure')(d['vapor_pressure'].values.copy(), np.asarray(tt).copy(), rise - ts, n * k, ts)
    vp = np.asarray(vp, float)
    m = ~np.isnan(vp)
    close(v('vapor_pressure')[m], vp[m], 'vapor_pressure')
    le(v('vapor_pressure'), ref.svp(v('temp')) / 1000, 'supersaturated')
