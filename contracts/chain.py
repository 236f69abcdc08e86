"""From one function to the output: the call chain around the function a property is about.

The contracts of C12 (grid, units), C14 (one cell) and C22 (table of steps) say what every function on the way from the forcing to
the output is handed and what becomes of its result.  For the property at hand the clauses on its own variables are proved again
here, so that the property is decided from the daily record to the value written, not for the function alone."""
import re
from . import C12, C14, C22
from . import cell_contracts as cc
from .common import SUB

ASSUMPTIONS = C22.ASSUMPTIONS + cc.ASSUMPTIONS
ROWS = 'one row per step|stamps: |column '
# property: clauses of the table of steps, of the cell, of the grid, output variables
KEEP = {
    'C01': (r'prec |daily (prec|t_min) unch', r"own (prec|t_min)|prec of each|daily prec|own days|per day", r'prec of ev|prec_type|same cell', ['prec']),
    'C02': (r'shortwave |daily (shortwave|daylength) unch', r"shortwave|daylength|radiation curve|solar geometry|own days", r'shortwave of ev|method as|same cell', ['shortwave']),
    'C03': (r'temp |set_min_max_hour |daily t_(min|max) unch', r"own (t_min|t_max)|temp of each|radiation curve|day before|no day after|solar geometry", r'temp of ev|tmax_day|same cell', ['temp']),
    'C04': (r'vapor.pressure|humid|svp|air pressure', r"vapor_pressure|rel_humid", r'(vapor_pressure|humid) of ev|same cell', ['vapor_pressure', 'rel_humid', 'spec_humid', 'air_pressure']),
    'C05': (r'(tskc|wind) |daily (tskc|wind) unch', r"own wind|tskc|own days", r'(tskc|wind) of ev|same cell', ['tskc', 'wind']),
    'C06': (r'longwave|tskc is|temp is', r"longwave|tskc", r'longwave of ev|lw_|same cell', ['longwave', 'temp', 'tskc', 'vapor_pressure']),
    'C07': (r'(prec|wind|tskc|shortwave) |set_min_max_hour |longitude', r"own lon|radiation curve", r'utc_offset|same cell', ['prec', 'tskc', 'shortwave', 'wind']),
    'C08': (r'radiation curve|averaging', r"solar geometry|of the day|radiation curve|daylength", r'lapse_rate|same cell', ['shortwave']),
    'C09': (None, r"the daily method|is the daily", r'sw_prec|rain_sc|tday|lapse|lw_cloud|same cell|daily method', ['tskc', 'pet', 'vapor_pressure']),
    'C10': (None, r"gets the daily|is the daily|is the forcing|unchanged", r'tdew_tol|same cell|daily method', ['pet', 'vapor_pressure', 't_min', 't_max', 'prec']),
    'C17': (None, r"dtr|seasonal_prec|solar", r'same cell|record.s own', ['tskc']),
    'C21': (r'air pressure', r"own elev|lapse rate", r'air_pressure of ev|lapse_rate|same cell', ['air_pressure']),
}
DAYS = ('C09', 'C10', 'C17')


def part(unit, pattern):
    """the unit, with only the clauses whose name matches"""
    def u(h):
        h.keep = re.compile(pattern)
        return unit(h)
    return u


def name(o):
    return '.'.join('%s=%s' % x for x in sorted(o.items())) or 'plain'


def units(prop, tier):
    if prop not in KEEP:
        return []
    table, cell, grid, outs = KEEP[prop]
    out = []
    if table:
        for o in C22.OPT:
            if prop == 'C07' and not o.get('utc'):
                continue
            out.append(('%s.chain.table.%s' % (prop, name(o)), part(C22.one(60, **o), ROWS + '|' + table)))
        for q, ts in enumerate(SUB):
            if ts != 60 and (tier != 'quick' or ts in (1, 30, 180, 360)):
                o = dict(utc=True, wind=True) if prop == 'C07' else C22.OPT[q % len(C22.OPT)]
                out.append(('%s.chain.table.ts%d' % (prop, ts), part(C22.one(ts, **o), ROWS + '|' + table)))
    for ts in [1440] + ([] if prop in DAYS else [360, 60, 1]):
        for o in (dict(), dict(method='passthrough'), dict(method='passthrough', averaging='daylight'), dict(ending=True)):
            out.append(('%s.chain.cell.ts%d.%s' % (prop, ts, name(o)), part(cc.unit(ts, ('own',), stale=True, **o), ROWS + '|' + cell)))
    for ts in [60, 1440] if prop not in DAYS else [1440]:
        vs = [v for v in outs if v in (C12.DAILY if ts == 1440 else C12.SUBDAY)]
        if vs:
            for o in (dict(), dict(method='passthrough'), dict(utc_offset=True, prec_type='mix')):
                out.append(('%s.chain.grid.ts%d.%s' % (prop, ts, name(o)), part(C12.written(ts, ('lat', 'lon'), [(v, C12.DEFAULT[v]) for v in vs], o), ROWS + '|' + grid)))
    return out
