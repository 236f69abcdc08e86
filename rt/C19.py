"""INI and YAML configurations."""
from .common import *
import types

RULE = ('random settings written both as ini and yaml (mappings, forcing formats, booleans in any case, outputs with names, comments and blank lines first, '
        'absent keys), read in random sequences; settings compared with the content and with each other')
QUICK, THOROUGH = 250, 10000
VARS = ['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'rel_humid', 'air_pressure', 'spec_humid', 'tskc', 'wind', 't_min', 't_max', 'pet', 'daylength']


def word(rng):
    return ''.join(rng.choice('abcdefghXYZ_') for _ in range(rng.randrange(1, 8))) + str(rng.randrange(99))


def content(rng):
    fmt = rng.choice(['netcdf', 'ascii', 'binary', 'netcdf'])
    need_ = ['prec', 't_min', 't_max'] + [v for v in ('wind', 'shortwave') if rng.random() < .5]
    uniq = set()

    def nm():
        while True:
            w = word(rng)
            if w not in uniq:
                uniq.add(w)
                return w
    c = dict(fmt=fmt, lead=rng.choice(['', '# a comment\n', '\n', '# one\n\n  # two\n', '\n\n']), inline=rng.random() < .3)
    if fmt == 'binary':
        c['forcing_vars'] = {v: '%d %s' % (rng.choice([1, 10, 40, 100]), rng.choice(['signed', 'unsigned'])) for v in rng.sample(need_, len(need_))}
    else:
        c['forcing_vars'] = {v: nm() for v in rng.sample(need_, len(need_))}       # MetSim name -> name in the file
    c['domain_vars'] = {v: nm() for v in ('lat', 'lon', 'mask', 'elev')}
    c['state_vars'] = {v: nm() for v in ('t_min', 't_max', 'prec')}
    c['out'] = {v: (v if rng.random() < .4 else nm()) for v in rng.sample(VARS, rng.randrange(1, 6))}
    c['units'] = {v: rng.choice(['K', 'Pa', 'mm s-1', '%']) for v in c['out'] if rng.random() < .4}      # yaml only
    c['chunks'] = {d: rng.randrange(1, 9) for d in ('lat', 'lon') if rng.random() < .7}
    c['plain'] = {'time_step': rng.choice([60, 180, 1440]), 'domain': 'd.nc', 'state': 's.nc', 'out_dir': 'out', 'method': rng.choice(['mtclim', 'passthrough'])}
    c['dates'] = [rng.choice(['1950-1-1', '1950-01-01', '1950/1/1', '1950/01/31']), rng.choice(['1951-12-31', '1951/12/31'])]
    c['opt'] = {k: v for k, v in {'prec_type': rng.choice(['mix', 'triangle']), 'lw_type': 'idso', 'out_prefix': 'pre', 'sw_prec_thresh': 0.5, 'tday_coef': .4,
                                  'calendar': 'noleap', 'out_freq': 'MS'}.items() if rng.random() < .4}
    c['bools'] = {k: rng.random() < .5 for k in ('utc_offset', 'period_ending') if rng.random() < .8}
    c['bcase'] = rng.choice(['True', 'true', 'TRUE'])
    c['const'] = {'wind': 2.5} if rng.random() < .3 else {}
    c['outform'] = rng.choice(['dict', 'list'])
    return c


def cases(rng, tier):
    while True:
        k = rng.choice([1, 1, 2, 3])
        yield dict(seq=[dict(content(rng), as_=rng.choice(['both', 'both', 'ini', 'yaml'])) for _ in range(k)])


def ini(c):
    L = ['[MetSim]' + ('   # main' if c['inline'] else '')]
    p = dict(c['plain'])
    p.update(c['opt'])
    p.update(forcing='f_in', forcing_fmt=c['fmt'], start=c['dates'][0], stop=c['dates'][1])
    for k, v in c['bools'].items():
        p[k] = c['bcase'] if v else 'False'
    names = list(c['out'])
    if c['outform'] == 'list':
        p['out_vars'] = str(names)
    L += ['%s = %s' % kv for kv in p.items()]
    L += ['', '[chunks]'] + ['%s = %d' % kv for kv in c['chunks'].items()]
    for s in ('forcing_vars', 'domain_vars', 'state_vars'):
        L += ['', '[%s]' % s] + ['%s = %s' % kv for kv in c[s].items()]
    if c['outform'] == 'dict':
        L += ['', '[out_vars]'] + ['%s = %s' % kv for kv in c['out'].items()]
    if c['const']:
        L += ['', '[constant_vars]'] + ['%s = %s' % kv for kv in c['const'].items()]
    return c['lead'] + '\n'.join(L) + '\n'


def yml(c):
    L = ['MetSim:' + ('   # main' if c['inline'] else '')]
    p = dict(c['plain'])
    p.update(c['opt'])
    p.update(forcing='f_in', forcing_fmt=c['fmt'], start=c['dates'][0], stop=c['dates'][1])
    for k, v in c['bools'].items():
        p[k] = c['bcase'] if v else 'False'
    L += ['  %s: %s' % kv for kv in p.items()]
    L += ['out_vars:']
    for v, o in c['out'].items():
        L += ['  %s:' % v]
        if c['outform'] == 'dict' or v not in c['units'] or not c['inline']:
            L += ['    out_name: %s' % (o if c['outform'] == 'dict' else v)]
        if v in c['units']:
            L += ["    units: '%s'" % c['units'][v]]
    L += ['chunks:' + (' {}' if not c['chunks'] else '')] + ['  %s: %d' % kv for kv in c['chunks'].items()]
    for s in ('forcing_vars', 'domain_vars', 'state_vars'):
        L += ['%s:' % s] + ["  %s: %s" % kv for kv in c[s].items()]
    if c['const']:
        L += ['constant_vars:'] + ['  %s: %s' % kv for kv in c['const'].items()]
    return c['lead'] + '\n'.join(L) + '\n'


def verify(c, kind, cf):
    import logging
    from .C12 import DEFAULT
    inv = lambda m: {v: k for k, v in m.items()}
    d = lambda x: dict(x)
    for s in ('forcing_vars', 'domain_vars', 'state_vars'):
        w = c[s] if s == 'forcing_vars' and c['fmt'] == 'binary' else inv(c[s])
        need(d(cf[s]) == w, '%s %s: %r, expected %r' % (kind, s, d(cf[s]), w))
        need(list(cf[s]) == list(w), '%s %s order' % (kind, s))
    for k in ('utc_offset', 'period_ending'):
        w = c['bools'].get(k, False)
        got = cf.get(k, False)
        need(got is w or (isinstance(got, (bool,)) and got == w), '%s %s is %r, expected %r' % (kind, k, got, w))
    need(set(cf['out_vars']) == set(c['out']), '%s out_vars %s, expected %s' % (kind, sorted(cf['out_vars']), sorted(c['out'])))
    for v, o in c['out'].items():
        w = {'out_name': o if c['outform'] == 'dict' else v, 'units': c['units'].get(v, DEFAULT[v]) if kind == 'yaml' else DEFAULT[v]}
        need(d(cf['out_vars'][v]) == w, '%s output %s is %r, expected %r' % (kind, v, d(cf['out_vars'][v]), w))
    need({k: int(v) for k, v in cf['chunks'].items()} == c['chunks'], '%s chunks %r' % (kind, cf['chunks']))
    if c['const']:
        need({k: float(v) for k, v in cf['constant_vars'].items()} == c['const'], '%s constant_vars %r' % (kind, cf.get('constant_vars')))
    else:
        need('constant_vars' not in cf or not cf['constant_vars'], '%s constant_vars' % kind)
    need(int(cf['time_step']) == c['plain']['time_step'], '%s time_step %r' % (kind, cf['time_step']))
    for k in ('domain', 'state', 'method'):
        need(cf[k] == c['plain'][k], '%s %s %r' % (kind, k, cf[k]))
    need(cf['forcing_fmt'] == c['fmt'] and cf['forcing'] == 'f_in', '%s forcing' % kind)
    need(os.path.abspath(cf['out_dir']) == os.path.abspath('out'), '%s out_dir' % kind)
    need(cf.get('calendar') == c['opt'].get('calendar', 'standard'), '%s calendar %r' % (kind, cf.get('calendar')))
    for k, v in c['opt'].items():
        need(str(cf.get(k)) == str(v), '%s %s is %r, expected %r' % (kind, k, cf.get(k), v))
    for k in ('lw_type', 'out_prefix', 'sw_prec_thresh', 'tday_coef', 'out_freq'):
        if k not in c['opt']:
            need(k not in cf, '%s sets %s' % (kind, k))
    need(cf.get('prec_type', 'uniform') == c['opt'].get('prec_type', 'uniform'), '%s prec_type' % kind)
    for k, w in zip(('start', 'stop'), c['dates']):
        need(pd.Timestamp(str(cf[k])) == pd.Timestamp(w), '%s %s is %r' % (kind, k, cf[k]))
    need(cf['scheduler'] == 'threading' and cf['num_workers'] == 3, '%s command-line options' % kind)


def check(c):
    rd = get('io', 'read_config')
    import metsim.metsim as mm
    d = scratch()
    first = {}
    for i, x in enumerate(c['seq']):
        for kind in (['ini', 'yaml'] if x['as_'] == 'both' else [x['as_']]):
            fn = os.path.join(d, 'c%d.%s' % (i, kind))
            with open(fn, 'w') as f:
                f.write(ini(x) if kind == 'ini' else yml(x))
            o = types.SimpleNamespace(config=fn, scheduler='threading', num_workers=3, verbose=False)
            cf = rd(o)
            verify(x, kind, cf)
            first[fn] = (x, kind, o, cf)
    for fn, (x, kind, o, cf) in first.items():
        verify(x, kind, cf)                    # not changed by the later reads
        verify(x, kind, rd(o))                 # and read again the same
    for v in VARS:
        from .C12 import DEFAULT
        need(dict(mm.available_outputs[v]) == {'out_name': v, 'units': DEFAULT[v]}, 'the table of outputs changed for %s: %r' % (v, mm.available_outputs[v]))
    t = get('io', 'check_config_type')
    for fn, (x, kind, o, cf) in first.items():
        need(t(fn) == kind, 'type of %s file read as %s' % (kind, t(fn)))
