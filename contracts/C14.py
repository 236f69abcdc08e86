"""Each active cell from its own data, every other cell missing."""
from .common import *
from pyvc.core import Unsupported
from pyvc.interp import VDict
from . import model_contracts as mc
from . import cell_contracts as cc
from . import C12

ASSUMPTIONS = cc.ASSUMPTIONS + ['xarray: isel(**{dim: i}) takes the cell at that position; item assignment stores the value at that position',
                                'the daily methods, disaggregate and solar_geom are functions of their arguments (their own contracts: C01-C11, C21, C22)']


def inputs(given):
    """met_data: the coordinates every cell is computed with are the domain's own"""
    def u(h):
        c = h.c
        g = mc.Grid(h, ('lat', 'lon'), 60, [])
        sh = (g.size['lat'], g.size['lon'])
        for v in ('elev', 'lat', 'lon'):
            a = h.arr(sh if v == 'elev' else (g.size[v],), 'dom_' + v)
            g.domain.vars[v] = mc.DA(a, ('lat', 'lon') if v == 'elev' else (v,), name=v)
        if given:
            # the forcing file carries fields of that name itself
            for v in ('elev',):
                g.met.vars[v] = mc.DA(h.arr(sh, 'other_' + v), ('lat', 'lon'), name=v)
        asked = []

        def read(it, fn, v):
            asked.append((v.get('params'), v.get('domain')))
            return g.met
        K = h.it.contracts
        K.pop('metsim.metsim.MetSim.met_data', None)
        K['metsim.io.read_met_data'] = read
        K['metsim.metsim.MetSim._validate_force_times'] = lambda it, fn, v: None
        g.ms.d.update(_met_data=None)
        c.cover('inputs of a run')
        m = h.it.getattr(g.ms, 'met_data')
        if not isinstance(m, mc.DS):
            raise Unsupported('met_data')
        h.prove('the forcing is read once, for this run\'s settings and domain', BT(len(asked) == 1 and mc.same_value(asked[0][0], g.params) and asked[0][1] is g.domain))
        for v in ('elev', 'lat', 'lon'):
            x, d = m.vars.get(v), g.domain.vars[v]
            if not isinstance(x, mc.DA) or x.arr is None:
                raise Unsupported('coordinates in met_data')
            h.prove('%s has the dimensions of the domain\'s' % v, BT(x.dims == d.dims))
            ix = [h.idx(n, v + str(k)) for k, n in enumerate(d.arr.shape)]
            if x.dims == d.dims:
                h.prove('%s of every cell is the domain\'s' % v, eq(x.arr.at(*ix), d.arr.at(*ix)))
        h.prove('met_data is kept for the whole run', BT(h.it.getattr(g.ms, 'met_data') is m and len(asked) == 1))
    return u


DIMS = [('lat', 'lon'), ('lon', 'lat'), ('hru',), ('y', 'x', 'band')]


def units(tier):
    out = []
    for ts in [1440] + SUB:
        out.append(('C14.cell.ts%d' % ts, cc.unit(ts, ('own',), stale=True)))
    for ts in (1440, 60, 1):
        for o in (dict(method='passthrough'), dict(method='passthrough', averaging='daylight'), dict(ending=True), dict(text=True)):
            out.append(('C14.cell.ts%d.%s' % (ts, '.'.join('%s_%s' % x for x in o.items())), cc.unit(ts, ('own',), stale=True, **o)))
    for d in DIMS:
        for ts, vs in ((1440, C12.DAILY), (60, C12.SUBDAY), (180, C12.SUBDAY[:4])):
            out.append(('C14.grid.%s.ts%d' % ('-'.join(d), ts), C12.written(ts, d, [(v, C12.DEFAULT[v]) for v in vs])))
    for m in ('passthrough', 'mtclim'):
        for pt in ('uniform', 'triangle', 'mix'):
            out.append(('C14.grid.%s.%s' % (m, pt), C12.written(120, ('lat', 'lon'), [('prec', 'mm timestep-1'), ('temp', 'C')], dict(method=m, prec_type=pt))))
    out.append(('C14.inputs', inputs(False)))
    out.append(('C14.inputs.field_in_forcing', inputs(True)))
    return out
