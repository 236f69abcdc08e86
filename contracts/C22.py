"""disaggregate(): which daily column and which sub-daily column every output column is computed from.

The callees stand by their own contracts (C01-C06): a call checks the arguments handed over and yields an
arbitrary result that satisfies the callee's postcondition; the three humidity and pressure expressions are
executed in place.
"""
from .common import *
from . import formulas as fm
from pyvc.core import Unsupported

ASSUMPTIONS = ['pandas: a DataFrame column assigned from an array of the index length holds those values; ffill/bfill leave present values alone and fill every gap of a column with at least one value',
               'calendar "standard": pandas.date_range',
               'callees by their contracts: set_min_max_hour and temp (C03), vapor_pressure and svp (C04), shortwave (C02), wind, tskc (C05), longwave (C06), prec (C01)',
               'lapse rate times elevation between -300 and 300 K; daily vapor pressure positive; t_min <= t_max, both in -90..55 C']

DAILY = ('prec', 't_min', 't_max', 'shortwave', 'daylength', 'vapor_pressure', 'tskc')
BASE = ('shortwave', 'temp', 'vapor_pressure', 'rel_humid', 'air_pressure', 'spec_humid', 'tskc', 'longwave', 'prec')
MOD = 'metsim.disaggregate.'


def barometric(t, el, lr):
    tc = sub(add(F('273.15'), t), mul(F('0.5'), mul(el, lr)))
    return mul(F('101.325'), uf('exp', div(mul(-1, mul(el, F('9.80665'))), mul(287, tc))))


class World:
    def __init__(self, h, ts, **o):
        c = self.c = h.c
        self.h, self.ts, self.k, self.o = h, ts, 1440 // ts, o
        n = self.n = c.int('n_days')
        c.assume(n >= 2)
        self.m = mul(n, self.k)
        cols = list(DAILY) + (['wind'] if o.get('wind') else []) + (['longwave'] if o.get('longwave') else [])
        if o.get('prec', 'uniform') != 'uniform':
            cols += ['t_pk', 'dur']
        ix = self.ix = day_index(h, n)
        D = self.D = {k: h.arr(n, 'd_' + k) for k in cols}
        self.df = models.DataFrame({k: a.copy() for k, a in D.items()}, ix)
        self.cols = cols
        for k in ('prec', 'shortwave', 'daylength'):
            nonneg(h, D[k])
        forall(h, D['vapor_pressure'], lambda i, x: cmp('>', x, 0))
        forall(h, D['tskc'], lambda i, x: land(cmp('>=', x, 0), cmp('<=', x, 1)))
        forall(h, D['t_min'], lambda i, x: land(cmp('>=', x, -90), cmp('<=', x, D['t_max'].at(i))))
        forall(h, D['t_max'], lambda i, x: cmp('<=', x, 55))
        self.tiny = h.arr((366, 2880), 'tiny_rad_fract')
        self.sunlen = h.arr(366, 'sun_daylength')
        self.lon, self.el, self.lr, self.f = c.real('lon'), c.real('elev'), c.real('lapse_rate'), c.real('tmax_daylength_fraction')
        c.assume(land(self.f > 0, self.f < 1))
        c.assume(land(cmp('>=', mul(self.el, self.lr), -300), cmp('<=', mul(self.el, self.lr), 300)))
        self.params = h.dict(time_step=ts, lon=self.lon, elev=self.el, lapse_rate=self.lr, method=o.get('method', 'mtclim'), calendar='standard',
                             utc_offset=o.get('utc', False), period_ending=o.get('ending', False), prec_type=o.get('prec', 'uniform'),
                             lw_type='prata', lw_cloud='cloud_deardorff', tmax_daylength_fraction=self.f, theta_s=0,
                             sw_averaging=o.get('averaging', ''))
        self.sg = h.dict(tiny_rad_fract=self.tiny, daylength=self.sunlen)
        self.adj = None
        if o.get('adjoin'):
            mk = lambda nm: h.it.call(h.it.builtins['list'], [(c.real(nm + '_min'), c.real(nm + '_max'))], {})
            self.adj = (mk('begin'), mk('end'))
        self.calls = []
        self.out = {}
        self.before = {k: D[k].at(h.idx(n, 'd_%s' % k)) for k in cols}
        self.contracts()

    # ---- argument checks
    def given(self, who, what, x, want, n):
        h, c = self.h, self.c
        try:
            x = models.to_arr(h.it, x)
        except Exception:
            raise Unsupported('%s of %s is not an array' % (what, who))
        i = h.idx(n, 'q')
        h.prove('%s gets one %s per element' % (who, what), eq(x.shape[0], n))
        h.prove('%s gets its own %s' % (who, what), eq(x.at(i), want(i)))

    def scalar(self, who, what, x, want):
        self.h.prove('%s gets the %s' % (who, what), eq(x, want))

    def par(self, who, p):
        if not isinstance(p, interp.VDict):
            raise Unsupported('params of %s' % who)
        for k, v in (('time_step', self.ts), ('lon', None), ('elev', self.el), ('lapse_rate', self.lr), ('tmax_daylength_fraction', self.f)):
            if v is not None:
                self.h.prove('%s sees %s as configured' % (who, k), eq(p[k], v) if k in p else BT(False))
        if self.o.get('utc'):
            x = p['lon'] if 'lon' in p else None
            near = BT(False) if x is None else conj([finite(x), cmp('>=', strip(x), -180), cmp('<=', strip(x), 180), BT(z3.IsInt((RT(strip(x)) - RT(self.lon)) / 360))])
            self.h.prove('%s sees the longitude, within half a turn and whole turns from the configured one' % who, near)

    def contracts(self):
        h, c, n, m, D = self.h, self.c, self.n, self.m, self.D
        K = h.it.contracts
        doy = lambda d: models.to_arr(h.it, h.it.getattr(self.ix, 'dayofyear')).at(d)

        def once(name, f, need):
            def g(it, fn, v):
                if name in self.out:
                    raise Unsupported('%s is called more than once' % name)
                for q in need:
                    if q not in v:
                        raise Unsupported('%s has no argument %s' % (name, q))
                r = f(v)
                self.out[name] = r
                self.calls.append(name)
                return r
            K[MOD + name] = g
        fresh = lambda name, n, finite=True: h.arr(n, name, finite)

        def sw(v):
            whole = self.o.get('method') == 'passthrough' and self.o.get('averaging') != 'daylight'
            self.given('shortwave', 'daily shortwave', v['sw_rad'], D['shortwave'].at, n)
            self.given('shortwave', 'averaging period', v['daylength'], (lambda d: S(86400)) if whole else D['daylength'].at, n)
            self.given('shortwave', 'day of year', v['day_of_year'], doy, n)
            i = h.idx(366, 'row')
            j = h.idx(2880, 'col')
            h.prove('shortwave gets the radiation curve', eq(models.to_arr(h.it, v['tiny_rad_fract']).at(i, j), self.tiny.at(i, j)))
            self.par('shortwave', v['params'])
            return fresh('shortwave', m)
        once('shortwave', sw, ('sw_rad', 'daylength', 'day_of_year', 'tiny_rad_fract', 'params'))

        def hour(v):
            i = h.idx(366, 'row')
            j = h.idx(2880, 'col')
            h.prove('set_min_max_hour gets the radiation curve', eq(models.to_arr(h.it, v['tiny_rad_fract']).at(i, j), self.tiny.at(i, j)))
            self.given('set_min_max_hour', 'row number of the day', v['yday'], lambda d: sub(doy(d), 1), n)
            self.scalar('set_min_max_hour', 'number of days', v['n_days'], n)
            self.scalar('set_min_max_hour', 'step', v['ts'], self.ts)
            self.par('set_min_max_hour', v['params'])
            L, H = fresh('t_t_min', n), fresh('t_t_max', n)
            increasing(h, L)
            self.L, self.H = L, H
            return (L, H)
        once('set_min_max_hour', hour, ('tiny_rad_fract', 'yday', 'n_days', 'ts', 'params'))

        def tmp(v):
            self.given('temp', 'daily minimum', v['t_min'], D['t_min'].at, n)
            self.given('temp', 'daily maximum', v['t_max'], D['t_max'].at, n)
            self.given('temp', 'time of the minimum', v['t_t_min'], self.L.at, n)
            self.given('temp', 'time of the maximum', v['t_t_max'], self.H.at, n)
            self.scalar('temp', 'number of steps', v['out_len'], m)
            self.scalar('temp', 'step', v['ts'], self.ts)
            for q, e in zip(('t_begin', 't_end'), self.adj or (None, None)):
                h.prove('temp gets the adjoining values (%s)' % q, BT(v[q] is e) if not isinstance(v[q], Arr) else BT(False))
            T_ = fresh('temp', m)
            forall(h, T_, lambda i, x: land(cmp('>=', x, -90), cmp('<=', x, 55)))
            return T_
        once('temp', tmp, ('t_min', 't_max', 't_t_min', 't_t_max', 'out_len', 'ts', 't_begin', 't_end'))

        def vap(v):
            self.given('vapor_pressure', 'daily vapor pressure', v['vp_daily'], D['vapor_pressure'].at, n)
            self.given('vapor_pressure', 'sub-daily temperature', v['temp'], self.out['temp'].at, m)
            self.given('vapor_pressure', 'time of the minimum', v['t_t_min'], self.L.at, n)
            self.scalar('vapor_pressure', 'number of steps', v['n_out'], m)
            self.scalar('vapor_pressure', 'step', v['ts'], self.ts)
            e = fresh('vapor_pressure', m, False)
            T_ = self.out['temp']
            forall(h, e, lambda i, x: cmp('>', x, 0))
            # some step lies between the first and the last daily value, and is present
            self.some = w = h.idx(m, 'present')
            c.assume(finite(e.at(w)))
            self.e = e
            c.fillpoints = [w]
            return e
        once('vapor_pressure', vap, ('vp_daily', 'temp', 't_t_min', 'n_out', 'ts'))

        def held(name):
            def f(v):
                self.given(name, 'daily ' + name, v[name], D[name].at, n)
                self.scalar(name, 'step', v['ts'], self.ts)
                self.par(name, v['params'])
                r = fresh(name, m)
                if name == 'tskc':
                    forall(h, r, lambda i, x: land(cmp('>=', x, 0), cmp('<=', x, 1)))
                return r
            return f
        once('tskc', held('tskc'), ('tskc', 'ts', 'params'))
        once('wind', held('wind'), ('wind', 'ts', 'params'))

        def lwr(v):
            self.given('longwave', 'sub-daily temperature', v['air_temp'], self.out['temp'].at, m)
            # the vapor pressure of the table, filled and capped
            self.lw_e = models.to_arr(h.it, v['vapor_pressure'])
            h.prove('longwave gets one vapor pressure per step', eq(self.lw_e.shape[0], m))
            self.given('longwave', 'sub-daily cloud fraction', v['tskc'], self.out['tskc'].at, m)
            self.par('longwave', v['params'])
            if self.o.get('longwave'):
                if v['daily_lw'] is None:
                    h.prove('a supplied daily longwave is used', BT(False))
                else:
                    self.given('longwave', 'daily longwave', v['daily_lw'], D['longwave'].at, n)
            else:
                h.prove('no daily longwave is made up', BT(v['daily_lw'] is None))
            return fresh('longwave', m)
        once('longwave', lwr, ('air_temp', 'vapor_pressure', 'tskc', 'params', 'daily_lw'))

        def pre(v):
            self.given('prec', 'daily precipitation', v['prec'], D['prec'].at, n)
            self.given('prec', 'daily minimum', v['t_min'], D['t_min'].at, n)
            self.scalar('prec', 'step', v['ts'], self.ts)
            self.par('prec', v['params'])
            if self.o.get('prec', 'uniform') != 'uniform':
                self.given('prec', 'time to peak', v['t_pk'], D['t_pk'].at, n)
                self.given('prec', 'duration', v['dur'], D['dur'].at, n)
            return fresh('prec', m)
        def shum(v):
            self.sh = [models.to_arr(h.it, v[q]) for q in ('vapor_pressure', 'air_pressure')]
            h.prove('specific humidity of one value per step', land(eq(self.sh[0].shape[0], m), eq(self.sh[1].shape[0], m)))
            return fresh('spec_humid', m)
        once('specific_humidity', shum, ('vapor_pressure', 'air_pressure'))

        f = z3.Function('svp', z3.RealSort(), z3.RealSort())
        c.on_app['svp'] = lambda a: [f(a[0]) > 0]
        self.svp = lambda t: S(f(T(toreal(strip(t)))))

        def svp(it, fn, v):
            if set(v) - {'temp', 'a', 'b', 'c'} or not isinstance(v.get('temp'), Arr):
                raise Unsupported('svp arguments')
            for q, x in (('a', F('0.61078')), ('b', F('17.269')), ('c', F('237.3'))):
                if q in v:
                    h.prove('svp with its standard parameter ' + q, eq(v[q], x))
            t = v['temp']
            i = h.idx(t.shape[0], 'q')
            x = t.at(i)
            h.prove('svp within its temperature range', conj([finite(x), cmp('>=', strip(x), -100), cmp('<=', strip(x), 60)]))
            rd = t.reader()
            return Arr.new(t.shape, lambda i: self.svp(rd(i)), 'f')
        K['metsim.physics.svp'] = svp
        once('prec', pre, ('prec', 't_min', 'ts', 'params', 't_pk', 'dur'))

    def run(self):
        a = [self.df, self.params, self.sg] + (list(self.adj) if self.adj else [])
        self.r = self.h.call(self.h.fn('disaggregate', 'disaggregate'), *a)
        return self.r


def one(ts, **o):
    def u(h):
        c = h.c
        c.sum_signs = False
        w = World(h, ts, **o)
        c.cover('disaggregate')
        n, m, k, D = w.n, w.m, w.k, w.D
        r = w.run()
        if not isinstance(r, models.DataFrame):
            raise Unsupported('disaggregate does not return a DataFrame')
        names = list(r.cols)
        h.prove('one row per step', eq(r.nrows(), m))
        want = set(BASE) | ({'wind'} if o.get('wind') else set())
        for q in sorted(want):
            h.prove('column %s is there' % q, BT(q in names))
        if not o.get('wind'):
            h.prove('no wind column without daily wind', BT('wind' not in names))
        if not want <= set(names):
            return
        i = h.idx(m)
        col = lambda q: models.to_arr(h.it, r.col(q)).at(i)
        T_ = w.out['temp'].at(i)
        ix = r.index
        h.prove('stamps: every step of the record once, in order' + (', one step later' if o.get('ending') else ''),
                eq(models.to_arr(h.it, ix).at(i) if not isinstance(ix, models.DTIndex) else ix.at(i), add(w.ix.at(0), add(mul(ts, i), ts if o.get('ending') else 0))))
        for q in ('shortwave', 'temp', 'tskc', 'longwave', 'prec') + (('wind',) if o.get('wind') else ()):
            h.prove('%s is the disaggregated %s' % (q, q), eq(col(q), w.out[q].at(i)))
        e = col('vapor_pressure')
        sat = div(w.svp(T_), 1000)
        h.prove('vapor pressure is present', finite(e))
        h.prove('vapor pressure never above saturation', cmp('<=', strip(e), sat))
        h.prove('vapor pressure is the disaggregated one where that is present', implies(finite(w.e.at(i)), eq(e, minimum(w.e.at(i), sat))))
        h.prove('longwave uses the vapor pressure of the table', eq(w.lw_e.at(i), e))
        h.prove('relative humidity of the vapor pressure and temperature of the table', eq(col('rel_humid'), minimum(100, mul(100, div(mul(1000, e), w.svp(T_))))))
        p = barometric(T_, w.el, w.lr)
        h.prove('air pressure of the temperature of the table', cmp('==', strip(col('air_pressure')), p))
        if 'specific_humidity' in w.out:
            h.prove('specific humidity from the vapor pressure of the table', eq(w.sh[0].at(i), e))
            h.prove('specific humidity from the air pressure of the table', eq(w.sh[1].at(i), col('air_pressure')))
            h.prove('spec_humid is that specific humidity', eq(col('spec_humid'), w.out['specific_humidity'].at(i)))
        else:
            c.assume(cmp('>', p, strip(e)))
            q_ = div(mul(F('0.62196351'), e), sub(p, e))
            h.prove('specific humidity of the vapor and air pressure of the table', cmp('==', strip(col('spec_humid')), strip(div(q_, add(1, q_)))))
        d = h.idx(n, 'd')
        for q in w.cols:
            h.prove('daily %s unchanged' % q, eq(models.to_arr(h.it, w.df.col(q)).at(d), S(base_decl(D[q])(T(d)))))
        h.prove('daily columns unchanged', BT(sorted(w.df.cols) == sorted(w.cols)))
    return u


OPT = [dict(), dict(wind=True), dict(longwave=True), dict(wind=True, longwave=True, ending=True), dict(prec='mix', wind=True), dict(prec='triangle'),
       dict(method='passthrough'), dict(method='passthrough', averaging='daylight', longwave=True), dict(utc=True, wind=True),
       dict(adjoin=True, ending=True), dict(utc=True, ending=True, adjoin=True, prec='mix', wind=True, longwave=True)]


def units(tier):
    out = []
    for q, o in enumerate(OPT):
        out.append(('C22.table.ts60.' + ('.'.join('%s=%s' % x for x in sorted(o.items())) or 'plain'), one(60, **o)))
    for q, ts in enumerate(SUB):
        if ts != 60:
            out.append(('C22.table.ts%d' % ts, one(ts, **OPT[q % len(OPT)])))
    return out
