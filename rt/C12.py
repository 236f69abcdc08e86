"""Units."""
from .common import *
from . import ref

RULE = ('random small domains; every output variable in every documented unit, unknown units and none; after random earlier configurations in the '
        'same process; file values against the default-unit run, labels against the request, default units against the physics')
QUICK, THOROUGH = 24, 1200

mm = lambda f: {'mm timestep-1': lambda x, ts: x, 'mm h-1': lambda x, ts: x * 60. / ts, 'mm s-1': lambda x, ts: x / (60. * ts)}
TK = {'C': lambda x, ts: x, 'K': lambda x, ts: x + 273.15}
W = {'W m-2': lambda x, ts: x}
UNITS = {
    'pet': mm(0), 'prec': mm(0), 'shortwave': W, 'longwave': W, 't_max': TK, 't_min': TK, 'temp': TK,
    'vapor_pressure': {'Pa': lambda x, ts: x, 'hPa': lambda x, ts: x / 100, 'kPa': lambda x, ts: x / 1000},
    'air_pressure': {'kPa': lambda x, ts: x, 'hPa': lambda x, ts: x * 10, 'Pa': lambda x, ts: x * 1000},
    'tskc': {'fraction': lambda x, ts: x, '%': lambda x, ts: x * 100},
    'rel_humid': {'%': lambda x, ts: x, 'fraction': lambda x, ts: x / 100},
    'spec_humid': {'g g-1': lambda x, ts: x}, 'wind': {'m s-1': lambda x, ts: x}, 'daylength': {'s': lambda x, ts: x}}
DEFAULT = {'pet': 'mm timestep-1', 'prec': 'mm timestep-1', 'shortwave': 'W m-2', 'longwave': 'W m-2', 't_max': 'C', 't_min': 'C', 'temp': 'C',
           'vapor_pressure': 'Pa', 'air_pressure': 'kPa', 'tskc': 'fraction', 'rel_humid': '%', 'spec_humid': 'g g-1', 'wind': 'm s-1', 'daylength': 's'}


def warm():
    geom(0, 45)


def pick(rng, ts):
    names = ALLDAY if ts == 1440 else ALLSUB
    return {v: rng.choice(sorted(UNITS[v]) * 3 + ['bogus', None]) for v in names}


def cases(rng, tier):
    while True:
        ts = rng.choice([1440, 1440, 30, 60, 180, 240, 360])
        yield dict(seed=rng.randrange(1 << 30), ts=ts, units=pick(rng, ts), before=[pick(rng, ts) for _ in range(rng.choice([0, 1, 2]))])


FIXED = [dict(seed=1, ts=ts, units={v: sorted(UNITS[v])[i % len(UNITS[v])] for v in (ALLDAY if ts == 1440 else ALLSUB)}, before=[])
         for ts in (60, 1440) for i in range(3)] + \
        [dict(seed=2, ts=ts, units={v: None if i else 'bogus' for v in (ALLDAY if ts == 1440 else ALLSUB)},
              before=[{v: sorted(UNITS[v])[-1 - j] if len(UNITS[v]) > j else None for v in (ALLDAY if ts == 1440 else ALLSUB)} for j in (0, 1)])
         for ts in (180, 1440) for i in (0, 1)]


def ov(u):
    return {v: dict(out_name=v, **({'units': x} if x is not None else {})) for v, x in u.items()}


def check(c):
    from metsim.metsim import MetSim
    ts = c['ts']
    n = 2
    fo, st, do = dataset(c['seed'], n, 1, 2)
    p = config(fo, st, do, time_step=str(ts) if c['seed'] % 2 else ts, out_precision='f8', outs=['prec'])
    for b in c['before']:
        MetSim(dict(p, out_vars=ov(b)))
    base = single(run(dict(p, out_vars=ov({v: DEFAULT[v] for v in c['units']})), 'base')[0])
    for b in c['before'][:1]:
        MetSim(dict(p, out_vars=ov(b)))
    o = single(run(dict(p, out_vars=ov(c['units'])), 'asked')[0])
    late = None
    for v, u in c['units'].items():
        want = u if u in UNITS[v] else DEFAULT[v]
        need(v in o, 'variable %s not written' % v)
        need(o[v].attrs.get('units') == want, '%s requested in %r is labelled %r' % (v, u, o[v].attrs.get('units')))
        need(base[v].attrs.get('units') == DEFAULT[v], '%s in its default unit is labelled %r' % (v, base[v].attrs.get('units')))
        close(o[v].values, UNITS[v][want](base[v].values, ts), '%s in %s (asked %r)' % (v, want, u), rtol=1e-9, atol=1e-12)
    # the default values really are in the default unit
    f3 = lambda k: fo[k].values
    b = lambda k: base[k].values
    if ts == 1440:
        for k in ('t_min', 't_max', 'prec', 'wind'):
            close(b(k), f3(k), 'daily %s in its default unit' % k, rtol=1e-9)
        need((b('vapor_pressure') > 20).all(), 'daily vapor pressure not in Pa')
    else:
        k = 1440 // ts
        le(f3('t_min').min() - 30, b('temp'), 'temp not in C')
        le(b('temp'), f3('t_max').max() + 30, 'temp not in C')
        close(b('prec').reshape(n, k, 1, 2).sum(axis=1), f3('prec'), 'prec per step', rtol=1e-6)
        close(b('wind'), np.repeat(f3('wind'), k, axis=0), 'wind in m/s')
        q, pr = b('spec_humid'), b('air_pressure')
        for j in range(2):
            close(pr[:, 0, j], ref.air_pressure(b('temp')[:, 0, j], float(do.elev.values[0, j]), .0065), 'air pressure in kPa', rtol=1e-6)
        e = q * pr / (.62196351 * (1 - q) + q) * 1000             # Pa
        vp = b('vapor_pressure')
        close(b('rel_humid')[0], np.minimum(100, 100 * e / ref.svp(b('temp')))[0], 'rel_humid in %', rtol=1e-5)
        if not np.allclose(vp, e, rtol=1e-5):
            if np.allclose(vp, e / 1000, rtol=1e-5):
                late = Fail('sub-daily vapor_pressure labelled Pa holds values in kPa (ratio %.6g)' % float(np.median(vp / e)), 'subdaily-vapor-pressure-kPa')
            else:
                close(vp, e, 'sub-daily vapor pressure in Pa', rtol=1e-5)
    if late:
        raise late
