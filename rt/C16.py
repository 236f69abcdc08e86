"""Set-up validation."""
from .common import *

RULE = ('single-cell models with random combinations of good and bad settings (any integer time step, missing inputs, every variable/step pair, option '
        'names in any case): accepted and run, or rejected before output exists with every problem named')
QUICK, THOROUGH = 200, 8000

LW = ['default', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso', 'prata']
SUBV = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure', 'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']
DAYV = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet', 'wind', 'daylength']


def warm():
    geom(0, 45)


def anycase(rng, s):
    return ''.join(ch.upper() if rng.random() < .4 else ch for ch in s)


def cases(rng, tier):
    while True:
        bad = rng.random() < .65
        ts = rng.choice(STEPS if not bad or rng.random() < .5 else [0, -1, -60, -1440, 7, 11, 361, 480, 720, 1439, 1441, 2880, 50, rng.randrange(-100, 3000)])
        pool = DAYV if ts == 1440 else SUBV
        if bad and rng.random() < .3:
            pool = DAYV + SUBV + ['t_mean', 'Temp']
        out = sorted(set(rng.choice(pool) for _ in range(rng.choice([1, 2, 3]))))
        c = dict(ts=ts, text=rng.random() < .5, out=out, prec='f4' if rng.random() < .5 else 'f8', lw=anycase(rng, rng.choice(LW)),
                 cloud=anycase(rng, rng.choice(['default', 'cloud_deardorff'])), drop=[], run=rng.random() < .12)
        if bad:
            k = rng.random()
            if k < .2:
                c['prec'] = rng.choice(['f2', 'double', 'F8', '', None, 'f16'])
            if rng.random() < .2:
                c['lw'] = rng.choice(['prat', 'tva1', '', None, 'dickinson', 'cloud_deardorff'])
            if rng.random() < .2:
                c['cloud'] = rng.choice(['deardorff', 'tvaa', '', None, 'prata'])
            c['drop'] = [x for x in ('forcing', 'forcing_vars', 'out_vars', 't_min', 't_max', 'prec', 'out_dir', 'forcing_fmt') if rng.random() < .1]
        yield c


FIXED = [dict(ts=t, text=0, out=['prec'], prec='f4', lw='prata', cloud='default', drop=[], run=t > 300) for t in STEPS] + \
        [dict(ts=t, text=0, out=['prec'], prec='f4', lw='prata', cloud='default', drop=[], run=0) for t in (0, -1, -60, 7, 480, 720, 361, 1439, 2880, 4320)] + \
        [dict(ts=t, text=1, out=[v], prec='f8', lw='Tva', cloud='CLOUD_DEARDORFF', drop=[], run=0) for t in (60, 1440) for v in sorted(set(DAYV + SUBV))] + \
        [dict(ts=60, text=1, out=['prec', 'temp'], prec='f8', lw='Tva', cloud='default', drop=[d], run=0) for d in
         ('forcing', 'forcing_vars', 'out_vars', 't_min', 't_max', 'prec', 'out_dir', 'forcing_fmt')] + \
        [dict(ts=60, text=1, out=['prec'], prec=pp, lw=l, cloud=cl, drop=[], run=0) for pp, l, cl in
         (('f4', x, 'default') for x in LW)] + \
        [dict(ts=7, text=0, out=['pet', 'temp'], prec='f2', lw='x', cloud='y', drop=['prec'], run=0)]


class Reached(Exception):
    pass


def check(c):
    import metsim.metsim as mm
    fo, st, do = dataset(5, 2, 1, 1)
    ts = c['ts']
    p = config(fo, st, do, time_step=60, outs=['prec'])
    ms = mm.MetSim(p)
    ms.met_data
    # apply the settings under test
    ms.params['time_step'] = str(ts) if c['text'] else ts
    ms.params['out_vars'] = {v: {'out_name': v, 'units': mm.available_outputs.get(v, {'units': ''})['units']} for v in c['out']}
    ms.params['out_precision'] = c['prec']
    ms.params['lw_type'] = c['lw']
    ms.params['lw_cloud'] = c['cloud']
    ms.params['out_dir'] = p['out_dir'] + '/new'
    bad = []          # (what, text the message must contain)
    if ts < 1 or 1440 % ts or not (ts <= 360 or ts == 1440):
        bad.append(('time step %r' % ts, ('time step', str(ts))))
    for d in c['drop']:
        if d == 'forcing':
            ms.params['forcing'] = ''
            bad.append(('no forcing', ('forcing',)))
        elif d == 'forcing_vars':
            ms.params['forcing_vars'] = {}
            bad.append(('no forcing variable', ('forcing',)))
        elif d == 'out_vars':
            ms.params['out_vars'] = {}
            bad.append(('no output variable', ('output',)))
        elif d in ('t_min', 't_max', 'prec'):
            ms._met_data = ms.met_data.drop_vars(d)
            bad.append(('no ' + d, (d,)))
        else:
            ms.params[d] = ''
            bad.append(('no ' + d, (d,)))
    for v in ms.params['out_vars']:
        if v not in (DAYV if ts == 1440 else SUBV):
            bad.append(('%s at step %s' % (v, ts), (v,)))
    if c['prec'] not in ('f4', 'f8'):
        bad.append(('out_precision %r' % (c['prec'],), ('out_precision',)))
    if not isinstance(c['lw'], str) or c['lw'].lower() not in LW:
        bad.append(('lw_type %r' % (c['lw'],), ('lw_type',)))
    if not isinstance(c['cloud'], str) or c['cloud'].lower() not in ('default', 'cloud_deardorff'):
        bad.append(('lw_cloud %r' % (c['cloud'],), ('lw_cloud',)))
    # does run() get past validation?  the first thing after it that writes is stubbed, unless a real run is asked for
    real = c['run'] and not bad
    reached = []
    if not real:
        if not hasattr(ms, 'setup_netcdf_output'):
            raise Inapplicable('no setup_netcdf_output')

        def stop(*a, **k):
            reached.append(1)
            raise Reached()
        ms.setup_netcdf_output = stop
    try:
        ms._times = ms._times[:1]
        ms.run()
        reached.append(2)
        err = None
    except Reached:
        err = None
    except Exception as e:
        err = e
    if bad:
        if err is None or reached:
            raise Fail('accepted although %s' % '; '.join(x for x, _ in bad))
        msg = str(err).lower()
        for what, words in bad:
            need(all(w.lower() in msg for w in words), 'the exception does not mention: %s (message %r)' % (what, str(err)[:400]))
        need(not any(f.endswith('.nc') for f in (os.listdir(p['out_dir'] + '/new') if os.path.isdir(p['out_dir'] + '/new') else [])), 'output written for an invalid set-up')
    else:
        if err is not None:
            if real or 'step' in str(err).lower() or 'invalid' in str(err).lower() or 'cannot' in str(err).lower() or 'requires' in str(err).lower():
                raise Fail('valid set-up rejected: %r' % (err,))
            raise err
    # constructing with the settings must not slip a bad time step through either
    if 'time step' in ''.join(x for x, _ in bad) and ts != 1440:
        try:
            m2 = mm.MetSim(dict(p, time_step=ts, out_dir=p['out_dir'] + '/n2'))
            m2.setup_netcdf_output = lambda *a, **k: reached.append(3)
            m2.run()
        except Exception:
            return
        raise Fail('a model with time step %r ran' % ts)
