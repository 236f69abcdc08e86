"""wrap_run_cell(): one grid cell, with solar_geom, the daily method and disaggregate by their contracts."""
from .common import *
from pyvc.core import Unsupported, PyRaise
from pyvc.interp import Builtin, VList

SEC = 86400
MET = ('t_min', 't_max', 'prec', 'dtr', 'smoothed_dtr', 'seasonal_prec', 'wind', 'shortwave_in')
ASSUMPTIONS = ['xarray: a cell selected from the data set holds that cell\'s scalars and daily series; .sel(time=t) raises KeyError exactly when t is not in the record',
               'calendar "standard": pandas.date_range']


class Scalar:
    """0-d DataArray"""
    def __init__(self, v, name):
        self.v, self.name = v, name

    def vattr(self, it, n):
        if n == 'values' or n == 'data':
            return Arr.new((1,), lambda i: self.v, 'f')
        if n == 'item':
            return Builtin(lambda *a: self.v)
        if n == 'shape':
            return ()
        if n in ('load', 'copy', 'compute', 'squeeze'):
            return Builtin(lambda *a, **k: self)
        return NotImplemented

    def vfloat(self):
        return self.v


class Daily:
    """1-d DataArray over time"""
    def __init__(self, arr, index):
        self.arr, self.index = arr, index

    def vattr(self, it, n):
        if n in ('values', 'data'):
            return self.arr
        if n in ('shape',):
            return (self.arr.shape[0],)
        if n == 'sel':
            def sel(**k):
                if set(k) != {'time'} or not isinstance(k['time'], models.TS):
                    raise Unsupported('sel')
                ok, i = self.index.pos(k['time'].m)
                core.vc().assumed.add('xarray .sel(time=t) raises KeyError exactly when t is not in the record')
                if it.truth(ok):
                    return Scalar(self.arr.at(i), 'sel')
                raise PyRaise(KeyError, ('time',))
            return Builtin(sel)
        if n == 'isel':
            def isel(**k):
                if set(k) != {'time'}:
                    raise Unsupported('isel')
                return Scalar(self.arr.get(k['time']), 'isel')
            return Builtin(isel)
        if n in ('load', 'copy', 'compute'):
            return Builtin(lambda *a, **k: self)
        return NotImplemented

    def vgetitem(self, it, k):
        return Scalar(self.arr.get(k), 'item')

    def varr(self, it):
        return self.arr


class Cell:
    """Dataset of one cell"""
    def __init__(self, series, scalars, index):
        self.series, self.scalars, self.index = series, scalars, index

    def vgetitem(self, it, k):
        if k in self.series:
            return Daily(self.series[k], self.index)
        if k in self.scalars:
            return Scalar(self.scalars[k], k)
        if k == 'time':
            return self.index
        raise PyRaise(KeyError, (k,))

    def vcontains(self, it, k):
        return k in self.series or k in self.scalars or k == 'time'

    def vattr(self, it, n):
        if n == 'to_dataframe':
            def f(*a, **k):
                c = {q: a.copy() for q, a in self.series.items()}
                for q, v in self.scalars.items():
                    c[q] = arrays.const_arr((self.index.n,), v, 'f')
                return models.DataFrame(c, self.index)
            return Builtin(f)
        if n in ('load', 'copy', 'compute'):
            return Builtin(lambda *a, **k: self)
        if n in self.series or n in self.scalars or n == 'time':
            return self.vgetitem(it, n)
        return NotImplemented


class World:
    def __init__(self, h, ts, check=True, adjoin=False, **o):
        self.check, self.adjoin = check, check or adjoin
        c = self.c = h.c
        self.h, self.ts, self.o = h, ts, o
        n = self.n = c.int('n_days')
        c.assume(n >= 1)
        self.ix = day_index(h, n)
        self.D = {k: h.arr(n, 'd_' + k) for k in MET}
        self.S = {k: c.real('cell_' + k) for k in ('lat', 'lon', 'elev')}
        self.cell = Cell({k: a for k, a in self.D.items()}, dict(self.S), self.ix)
        n_st = c.int('n_state')
        c.assume(n_st >= 1)
        self.n_st = n_st
        self.st = {k: h.arr(n_st, 's_' + k) for k in ('t_min', 't_max', 'prec')}
        d1 = c.int('state_day')
        self.state = Cell(dict(self.st), {}, models.DTIndex(mul(d1, 1440), 1440, n_st))
        self.lr = c.real('lapse_rate')
        p = dict(time_step=str(ts) if o.get('text') else ts, method=o.get('method', 'mtclim'), lapse_rate=self.lr, period_ending=o.get('ending', False), calendar='standard',
                 utc_offset=False, prec_type='uniform')
        if o.get('stale'):
            # whatever the previous cell left behind in the shared settings
            p.update({k: c.real('previous_' + k) for k in ('lat', 'lon', 'elev')})
        if 'averaging' in o:
            p['sw_averaging'] = o['averaging']
        self.params = h.dict(**p)
        self.sg = [h.arr((366, 2880), 'g_tiny'), h.arr(366, 'g_daylength'), h.arr(366, 'g_potrad'), h.arr(366, 'g_ttmax')]
        self.calls = []
        self.install()

    def own(self, name, g):
        if self.check:
            self.h.prove(name, g)

    def beside(self, name, g):
        if self.adjoin:
            self.h.prove(name, g)

    def install(self):
        h, c, n = self.h, self.c, self.n
        own = self.own
        yday = lambda d: sub(models.to_arr(h.it, h.it.getattr(self.ix, 'dayofyear')).at(d), 1)
        num = lambda x: x.v if isinstance(x, Scalar) else x.at() if isinstance(x, Arr) and x.ndim == 0 else x

        def once(k):
            if k in self.calls:
                raise Unsupported('%s is called more than once' % k)
            self.calls.append(k)

        def solar(it, fn, v):
            once('solar_geom')
            if set(v) != {'elev', 'lat', 'lr'}:
                raise Unsupported('arguments of solar_geom')
            for q, w in (('elev', self.S['elev']), ('lat', self.S['lat']), ('lr', self.lr)):
                own('solar geometry of the cell\'s own %s' % q, eq(num(v[q]), w))
            return tuple(self.sg)
        h.it.contracts['metsim.physics.solar_geom'] = solar

        def cellparams(who, p):
            if not isinstance(p, interp.VDict):
                raise Unsupported('params of ' + who)
            for q in ('lat', 'lon', 'elev'):
                own('%s runs with the cell\'s own %s' % (who, q), eq(num(p[q]), self.S[q]) if q in p else BT(False))
            own('%s sees the lapse rate as configured' % who, eq(p['lapse_rate'], self.lr) if 'lapse_rate' in p else BT(False))

        def method(df, params):
            once('method')
            if not isinstance(df, models.DataFrame):
                raise Unsupported('daily table')
            cellparams('the daily method', params)
            i = h.idx(n, 'q')
            own('the daily method gets one row per day', eq(df.nrows(), n))
            own('the daily method gets the record\'s own days', eq(df.index.at(i), self.ix.at(i)) if isinstance(df.index, models.DTIndex) else BT(False))
            for q in MET:
                own('the daily method gets the cell\'s own %s' % q, eq(models.to_arr(h.it, df.col(q)).at(i), self.D[q].at(i)) if q in df.cols else BT(False))
            for q, a in (('daylength', self.sg[1]), ('potrad', self.sg[2]), ('tt_max', self.sg[3])):
                own('the daily method gets the %s of the day' % q, eq(models.to_arr(h.it, df.col(q)).at(i), a.at(yday(i))) if q in df.cols else BT(False))
            # the result: in the table handed over (C10, C11)
            self.E = {q: h.arr(n, 'e_' + q) for q in ('t_day', 'tfmax', 'tskc', 'pet', 'tdew', 'vapor_pressure', 'shortwave')}
            for q, a in self.E.items():
                df.vsetitem(h.it, q, a)
            self.df = df
            return df
        self.method = Builtin(method, 'method')

        def dis(it, fn, v):
            once('disaggregate')
            for q in ('df_daily', 'params', 'solar_geom', 't_begin', 't_end'):
                if q not in v:
                    raise Unsupported('arguments of disaggregate')
            df = v['df_daily']
            if not isinstance(df, models.DataFrame):
                raise Unsupported('daily table')
            i = h.idx(n, 'q')
            cellparams('disaggregation', v['params'])
            own('disaggregation gets one row per day', eq(df.nrows(), n))
            own('disaggregation gets the record\'s own days', eq(df.index.at(i), self.ix.at(i)) if isinstance(df.index, models.DTIndex) else BT(False))
            for q in [x for x in MET if x not in self.E]:
                own('disaggregation gets the cell\'s own %s' % q, eq(models.to_arr(h.it, df.col(q)).at(i), self.D[q].at(i)) if q in df.cols else BT(False))
            for q, a in self.E.items():
                own('disaggregation gets the daily %s' % q, eq(models.to_arr(h.it, df.col(q)).at(i), a.at(i)) if q in df.cols else BT(False))
            own('disaggregation gets the daylength of the day', eq(models.to_arr(h.it, df.col('daylength')).at(i), self.sg[1].at(yday(i))))
            g = v['solar_geom']
            if not isinstance(g, dict) or 'tiny_rad_fract' not in g or 'daylength' not in g:
                raise Unsupported('solar geometry table')
            r, s = h.idx(366, 'row'), h.idx(2880, 'col')
            own('disaggregation gets the cell\'s radiation curve', eq(models.to_arr(h.it, g['tiny_rad_fract']).at(r, s), self.sg[0].at(r, s)))
            own('disaggregation gets the cell\'s daylengths', eq(models.to_arr(h.it, g['daylength']).at(r), self.sg[1].at(r)))
            b = v['t_begin']
            if b is None:
                self.beside('the day before comes from the state', BT(False))
            else:
                b = [num(x) for x in h.it.iterate(b)]
                self.beside('the day before comes from the state', conj([BT(len(b) == 2)] + [eq(x, self.st[q].at(sub(self.n_st, 1))) for x, q in zip(b, ('t_min', 't_max'))]))
            self.beside('no day after the record is made up', BT(v['t_end'] is None))
            k = 1440 // self.ts
            m = mul(n, k)
            self.O = {q: h.arr(m, 'o_' + q) for q in ('temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'rel_humid')}
            off = self.ts if self.o.get('ending') else 0
            return models.DataFrame({q: a.copy() for q, a in self.O.items()}, models.DTIndex(add(self.ix.start, off), self.ts, m))
        h.it.contracts['metsim.disaggregate.disaggregate'] = dis

    def run(self):
        """(table, rows, first stamp)"""
        h = self.h
        r = h.call(h.fn('metsim', 'wrap_run_cell'), self.method, self.params, self.cell, self.state, self.ts < 1440, self.ix)
        if not isinstance(r, tuple) or len(r) != 2 or not all(isinstance(x, models.DataFrame) for x in r):
            raise Unsupported('result of wrap_run_cell')
        return r


def unit(ts, goals, **o):
    """goals: which of 'own', 'stamps', 'flux', 'adjoin'; the obligations on the callees' arguments belong to 'own' (those on the adjoining days also to 'adjoin')"""
    def u(h):
        c = h.c
        w = World(h, ts, 'own' in goals, 'adjoin' in goals, **o)
        c.cover('one cell')
        n = w.n
        full, base = w.run()
        k = 1440 // ts
        m = mul(n, k) if k > 1 else n
        h.prove('one row per step', eq(full.nrows(), m))
        i = h.idx(m)
        col = lambda t, q, j: models.to_arr(h.it, t.col(q)).at(j)
        if 'stamps' in goals:
            off = ts if o.get('ending') and ts < 1440 else 0
            ix = full.index
            if not isinstance(ix, models.DTIndex):
                raise Unsupported('index of the result')
            h.prove('step i carries the stamp of step i', eq(ix.at(i), add(w.ix.at(0), add(mul(ts, i), off))))
        if ts < 1440:
            for q, a in w.O.items():
                h.prove('%s of each step is the disaggregated one' % q, eq(col(full, q, i), a.at(i)))
        else:
            for q, a in w.E.items():
                if q != 'shortwave':
                    h.prove('daily %s is the daily method\'s' % q, eq(col(full, q, i), a.at(i)))
            for q in ('t_min', 't_max', 'prec', 'wind'):
                h.prove('daily %s is the forcing\'s' % q, eq(col(full, q, i), w.D[q].at(i)))
            yd = sub(models.to_arr(h.it, h.it.getattr(w.ix, 'dayofyear')).at(i), 1)
            h.prove('daily daylength is the geometry\'s', eq(col(full, 'daylength', i), w.sg[1].at(yd)))
            if 'flux' in goals:
                day = o.get('method', 'mtclim') != 'passthrough' or o.get('averaging') == 'daylight'
                sw = w.E['shortwave'].at(i)
                want = mul(sw, div(w.sg[1].at(yd), 86400)) if day else sw
                h.prove('daily shortwave is the 24-hour mean' + (' of the daylight flux' if day else ' supplied'), eq(col(full, 'shortwave', i), want))
    return u
