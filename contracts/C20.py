"""A model instance depends only on its own configuration: frame conditions of the constructor and of the methods that edit settings."""
from .common import *
from pyvc.core import Unsupported
from . import model_contracts as mc
from .C12 import UNITS, DEFAULT, UNKNOWN

ASSUMPTIONS = ['copy.deepcopy copies dictionaries and lists at every level', 'dask, logging and netCDF4 leave the program\'s own objects alone',
               'configurations: each documented setting given or not, with an arbitrary value; every output variable in every kind of unit']

# documented defaults (docs/configuration.rst and the class documentation)
DEFAULTS = dict(period_ending=False, method='mtclim', forcing_fmt='netcdf', calendar='standard', prec_type='uniform', out_precision='f4',
                sw_prec_thresh=F(0), utc_offset=False, lw_cloud='cloud_deardorff', lw_type='prata', tdew_tol=F('1e-6'), tmax_daylength_fraction=F('.67'),
                rain_scalar=F('.75'), tday_coef=F('.45'), lapse_rate=F('.0065'), out_freq=None, num_workers=1, start='forcing', stop='forcing', out_prefix='forcing')
OTHER = dict(period_ending=True, method='passthrough', forcing_fmt='ascii', calendar='noleap', prec_type='mix', out_precision='f8', utc_offset=True, lw_cloud='default',
             lw_type='idso', out_freq='MS', num_workers=7, start='2000/1/1', stop='2000/1/2', out_prefix='other')
DOUT = ('temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'rel_humid')


def given(h, keys, outs=None):
    """a caller's dictionary"""
    d = dict(scheduler='threading', time_step=60, out_dir='/out', forcing=h.dict(a='f1'), domain='dom', state='st', forcing_vars=h.dict(prec='p', t_min='a', t_max='b'))
    for k in keys:
        d[k] = OTHER[k] if k in OTHER else h.c.real('given_' + k)
    if outs is not None:
        d['out_vars'] = h.dict(**{v: h.dict(out_name='o_' + v, **({} if q is None else {'units': q})) for v, q in outs.items()})
    return h.dict(**d)


def settings(h, who, ms, p, outs):
    """the instance has its own settings, or the documented defaults"""
    q = ms.d.get('params')
    if not isinstance(q, dict):
        raise Unsupported('params of the instance')
    for k, v in p.items():
        if k != 'out_vars':
            h.prove('%s: %s as given' % (who, k), BT(k in q and mc.same_value(q[k], v)))
    for k, v in DEFAULTS.items():
        if k not in p:
            h.prove('%s: %s is the documented default' % (who, k), BT(k in q and mc.same_value(q[k], v)))
    want = {v: (u if u in UNITS[v] else DEFAULT[v]) for v, u in (outs if outs is not None else {v: None for v in DOUT}).items()}
    ov = q.get('out_vars')
    if not isinstance(ov, dict):
        raise Unsupported('out_vars')
    h.prove('%s: its own output list' % who, BT(set(ov) == set(want)))
    at = ms.d.get('attrs')
    if not isinstance(at, dict):
        raise Unsupported('attrs of the instance')
    for v, u in want.items():
        h.prove('%s: %s in its own unit' % (who, v), BT(v in ov and ov[v].get('units') == u))
        h.prove('%s: %s under its own name' % (who, v), BT(v in ov and ov[v].get('out_name') == (('o_' + v) if outs is not None else v)))
        h.prove('%s: %s labelled in its own unit' % (who, v), BT(at.get(v, {}).get('units') == u))
    for v in UNITS:
        if v not in want:
            h.prove('%s: default label of %s' % (who, v), BT(at.get(v, {}).get('units') == DEFAULT[v]))


def pair(ka, oa, kb, ob):
    """two instances in one process, each judged before and after the other exists and is used"""
    def u(h):
        mc.surroundings(h)
        T = mc.Tables(h)
        pa, pb = given(h, ka, oa), given(h, kb, ob)
        sa, sb = mc.snapshot(pa), mc.snapshot(pb)
        h.c.cover('two configurations')
        a = mc.build(h, pa)
        settings(h, 'first instance', a, sa, oa)
        T.unchanged('by the first instance')
        b = mc.build(h, pb)
        settings(h, 'second instance', b, sb, ob)
        settings(h, 'first instance beside the second', a, sa, oa)
        T.unchanged('by the second instance')
        for nm, p, s in (('first', pa, sa), ('second', pb, sb)):
            h.prove('the %s caller\'s dictionary is unchanged' % nm, BT(mc.diff(s, mc.snapshot(p)) == ''))
        # a user adjusts the first instance: nobody else sees it
        for v in list(a.d['params']['out_vars']):
            a.d['params']['out_vars'][v]['units'] = 'edited'
            a.d['params']['out_vars'][v]['out_name'] = 'edited'
        a.d['params']['tday_coef'] = h.c.real('edited')
        for v in a.d['attrs'].values():
            if isinstance(v, dict):
                v['units'] = 'edited'
        settings(h, 'second instance after the first was edited', b, sb, ob)
        T.unchanged('by editing the first instance')
        h.prove('the caller\'s dictionary is unchanged by editing the instance', BT(mc.diff(sa, mc.snapshot(pa)) == ''))
        d = mc.build(h, given(h, (), None))
        settings(h, 'third, default instance', d, mc.snapshot(given(h, (), None)), None)
    return u


def files(h):
    """the methods that edit settings on the way to a file edit the instance's own"""
    g = mc.Grid(h, outs=[(v, v, DEFAULT[v]) for v in DOUT], params=dict(lapse_rate=h.c.real('lr')))
    T = mc.Tables(h)
    s = {k: mc.snapshot(v) for k, v in g.params.items()}
    h.c.cover('file set-up')
    g.new_file('/out/f.nc')
    T.unchanged('by setting up a file')
    h.prove('settings unchanged by setting up a file', BT(mc.diff(s, {k: mc.snapshot(v) for k, v in g.params.items()}) == ''))


def slice_(h):
    g = mc.Grid(h, outs=[(v, v, DEFAULT[v]) for v in DOUT])
    T = mc.Tables(h)
    g.cell_contract()
    s = {k: mc.snapshot(v) for k, v in g.params.items()}
    h.c.cover('run of a slice')
    h.call(h.it.getattr(g.ms, 'run_slice'))
    T.unchanged('by running a slice')
    h.prove('settings unchanged by running a slice', BT(mc.diff(s, {k: mc.snapshot(v) for k, v in g.params.items()}) == ''))


def units(tier):
    ALL = list(DEFAULTS)
    last = {v: list(UNITS[v])[-1] for v in UNITS}
    unk = {v: UNKNOWN for v in UNITS}
    none = {v: None for v in UNITS}
    out = [('C20.pair.everything_then_nothing', pair(ALL, last, (), None)), ('C20.pair.nothing_then_everything', pair((), None, ALL, last)),
           ('C20.pair.everything_twice', pair(ALL, last, ALL, none)), ('C20.pair.unknown_units', pair((), unk, (), none)),
           ('C20.pair.same_outputs', pair((), last, (), unk)), ('C20.pair.defaults_twice', pair((), None, (), None))]
    for k in ALL:
        out.append(('C20.setting.' + k, pair((k,), None, (), {'temp': 'K'})))
    for v in UNITS:
        out.append(('C20.output.' + v, pair((), {v: last[v]}, (), {v: None})))
    out.append(('C20.setup_file', files))
    out.append(('C20.run_slice', slice_))
    return out
