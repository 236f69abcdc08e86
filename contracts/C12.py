"""Units: conversion table, label bookkeeping, and the conversion applied to every output."""
from .common import *
from pyvc.core import Unsupported
from . import model_contracts as mc

ASSUMPTIONS = ['numpy, xarray: item assignment stores the value at that position (machine precision of f4/f8 output set aside)',
               'a unit name in no table stands for every such name', 'wrap_run_cell by its contract (C11, C14)',
               'netCDF4: an attribute assigned to a variable is written to the file']

mm = {'mm timestep-1': lambda x, ts: x, 'mm h-1': lambda x, ts: div(x, div(ts, 60)), 'mm s-1': lambda x, ts: div(x, mul(ts, 60))}
TK = {'C': lambda x, ts: x, 'K': lambda x, ts: add(x, F('273.15'))}
W = {'W m-2': lambda x, ts: x}
UNITS = {
    'pet': mm, 'prec': mm, 'shortwave': W, 'longwave': W, 't_max': TK, 't_min': TK, 'temp': TK,
    'vapor_pressure': {'Pa': lambda x, ts: x, 'hPa': lambda x, ts: div(x, 100), 'kPa': lambda x, ts: div(x, 1000)},
    'air_pressure': {'kPa': lambda x, ts: x, 'hPa': lambda x, ts: mul(x, 10), 'Pa': lambda x, ts: mul(x, 1000)},
    'tskc': {'fraction': lambda x, ts: x, '%': lambda x, ts: mul(x, 100)},
    'rel_humid': {'%': lambda x, ts: x, 'fraction': lambda x, ts: div(x, 100)},
    'spec_humid': {'g g-1': lambda x, ts: x}, 'wind': {'m s-1': lambda x, ts: x}, 'daylength': {'s': lambda x, ts: x}}
DEFAULT = {v: next(iter(u)) for v, u in UNITS.items()}


def table(var):
    def u(h):
        c = h.c
        cv = h.fn('units', 'converters')
        n, ts = c.int('n'), c.int('time_step')
        c.assume((n >= 1) & (ts >= 1))
        x = h.arr(n, 'x')
        i = h.idx(n)
        c.cover('conversion of ' + var)
        for unit, f in UNITS[var].items():
            r = models.to_arr(h.it, h.call(h.it.getitem(h.it.getitem(cv, var), unit), x.copy(), ts))
            h.prove('%s in %s' % (var, unit), eq(r.at(i), f(x.at(i), ts)))
    return u


UNKNOWN = 'a unit in no table'


def labels(asked):
    """asked: {variable: unit or None}: _update_unit_attrs on a fresh instance"""
    def u(h):
        g = mc.Grid(h, outs=())
        T = mc.Tables(h)
        ov = h.dict(**{v: h.dict(out_name=v, **({} if q is None else {'units': q})) for v, q in asked.items()})
        g.params['out_vars'] = ov
        before = {v: a.get('units') for v, a in g.ms.d['attrs'].items()}
        h.c.cover('unit labels')
        h.call(h.it.getattr(g.ms, '_update_unit_attrs'), ov)
        at = g.ms.d['attrs']
        for v, q in asked.items():
            w = q if q in UNITS[v] else DEFAULT[v]
            h.prove('%s asked in %s: label %s' % (v, q, w), BT(at[v].get('units') == w))
            h.prove('%s asked in %s: values in %s' % (v, q, w), BT(ov[v].get('units') == w))
            h.prove('%s: name unchanged' % v, BT(ov[v].get('out_name') == v))
        for v in before:
            if v not in asked:
                h.prove('label of %s unchanged' % v, BT(at[v].get('units') == before[v]))
        h.prove('no output added or dropped', BT(set(ov) == set(asked)))
        T.unchanged('by choosing units')
    return u


def fresh_labels(h):
    """a new instance starts from the documented default labels"""
    mc.surroundings(h)
    c = h.c
    ms = mc.build(h, h.dict(scheduler='threading', time_step=60))
    c.cover('new instance')
    at = ms.d.get('attrs')
    if not isinstance(at, dict):
        raise Unsupported('attrs of an instance')
    for v, w in DEFAULT.items():
        h.prove('default label of ' + v, BT(v in at and at[v].get('units') == w))
    for v, d in ms.d['params']['out_vars'].items():
        h.prove('default unit of output ' + v, BT(d.get('units') == DEFAULT[v]))


def written(ts, dims, outs, params=None):
    def u(h):
        c = h.c
        outs3 = [(v, 'out_' + v, q) for v, q in outs]
        g = mc.Grid(h, dims, ts, outs3, params)
        h.it.contracts['metsim.metsim.MetSim.convert_monthly_param'] = lambda it, fn, v: None
        g.cell_contract()
        c.cover('a slice of the grid')
        h.call(h.it.getattr(g.ms, 'run_slice'))
        out = g.ms.d.get('output')
        if not isinstance(out, mc.DS):
            raise Unsupported('output')
        t = h.idx(g.m, 't')
        x = [h.idx(g.size[d], d) for d in dims]
        on = land(finite(g.mask.at(*x)), cmp('>', strip(g.mask.at(*x)), 0))
        for v, q in outs:
            if v not in out.vars:
                h.prove('%s is produced' % v, BT(False))
                continue
            a = out.vars[v]
            if tuple(a.dims) != ('time',) + tuple(dims):
                raise Unsupported('dimensions of the output')
            h.prove('%s of every active cell and step is that cell\'s value in %s' % (v, q), implies(on, eq(a.arr.at(t, *x), UNITS[v][q](g.value(v, t, x), ts))))
            h.prove('%s of every other cell is missing' % v, implies(lnot(on), lnot(finite(a.arr.at(t, *x)))))
    return u


def in_file(ts, outs, ending=False):
    """setup_netcdf_output: the units attribute of every variable in the file"""
    def u(h):
        outs3 = [(v, 'out_' + v, q) for v, q in outs]
        g = mc.Grid(h, ('lat', 'lon'), ts, outs3, dict(period_ending=ending))
        for v, _, q in outs3:
            g.ms.d['attrs'][v]['units'] = q
        f = g.new_file('/out/file.nc')
        h.c.cover('new file')
        for v, on, q in outs3:
            x = f.vars.get(on)
            h.prove('%s is in the file' % v, BT(x is not None))
            if x is not None:
                h.prove('%s is labelled %s' % (v, q), BT(x.attrs.get('units') == q))
    return u


DAILY = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet', 'wind', 'daylength']
SUBDAY = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure', 'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']


def units(tier):
    out = [('C12.table.' + v, table(v)) for v in UNITS]
    out.append(('C12.labels.new_instance', fresh_labels))
    for v in UNITS:
        for q in list(UNITS[v]) + [UNKNOWN, None]:
            out.append(('C12.labels.%s.%s' % (v, q), labels({v: q})))
    out.append(('C12.labels.all_unknown', labels({v: UNKNOWN for v in UNITS})))
    out.append(('C12.labels.all_last', labels({v: list(UNITS[v])[-1] for v in UNITS})))
    for j in range(3):
        pick = lambda vs: [(v, list(UNITS[v])[j % len(UNITS[v])]) for v in vs]
        for ts, vs in ((1440, DAILY), (60, SUBDAY), (1, SUBDAY[:2]), (360, SUBDAY[:3])):
            out.append(('C12.written.ts%d.%d' % (ts, j), written(ts, ('lat', 'lon') if j else ('hru',), pick(vs))))
            out.append(('C12.in_file.ts%d.%d' % (ts, j), in_file(ts, pick(vs), bool(j))))
    return out
