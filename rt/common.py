"""Shared pieces of the run-time harness (runs the real code of $METSIM_REPO)."""
import copy
import json
import logging
import math
import os
import random
import sys
import tempfile
import traceback
import warnings

warnings.simplefilter('ignore')
REPO = os.path.abspath(os.environ.get('METSIM_REPO', '/repo'))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
import numpy as np          # noqa: E402
import pandas as pd         # noqa: E402

STEPS = [t for t in range(1, 1441) if 1440 % t == 0 and (t <= 360 or t == 1440)]
SUB = [t for t in STEPS if t < 1440]


class Fail(Exception):
    """the property does not hold for this case; key names the call site for the known-findings file"""
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Inapplicable(Exception):
    """the harness cannot drive this piece of the code (a helper was renamed, say): no verdict"""


def need(cond, msg, key=None):
    if not cond:
        raise Fail(msg, key)


def close(a, b, what, rtol=1e-7, atol=1e-9, key=None, at=None):
    """a (from the code) equals b (expected), everywhere and with the same shape"""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail('%s: shape %s, expected %s' % (what, a.shape, b.shape), key)
    bad = ~(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if bad.any():
        ix = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Fail('%s: at %s got %r, expected %r (%d of %d differ)' % (
            what, list(ix), float(a[ix]), float(b[ix]), int(bad.sum()), bad.size), key)


def le(a, b, what, tol=1e-9, key=None):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    bad = ~(a <= b + tol)
    if bad.any():
        ix = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Fail('%s: at %s %r is not <= %r' % (what, list(ix), float(a[ix]), float(b[ix])), key)


def get(mod, name):
    import importlib
    try:
        m = importlib.import_module('metsim.' + mod if mod else 'metsim')
        return getattr(m, name)
    except (ImportError, AttributeError) as e:
        raise Inapplicable(str(e))


def params(**kw):
    from metsim.metsim import MetSim
    p = copy.deepcopy(MetSim.params)
    p.update(elev=100.0, lat=45.0, lon=-120.0, theta_s=0.0)
    p.update(kw)
    return p


def verdict(check, case):
    """None (holds), ('fail', msg, key) or ('na', why)"""
    try:
        check(case)
        return None
    except Fail as e:
        return ('fail', str(e), e.key)
    except Inapplicable as e:
        return ('na', str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last_h = max([i for i, f in enumerate(tb) if f.filename.startswith(HERE)] or [-1])
        inner = [f for f in tb[last_h + 1:] if f.filename.startswith(REPO + os.sep)]
        msg = ''.join(traceback.format_exception_only(type(e), e)).strip()
        if inner:
            f = inner[-1]
            return ('fail', 'raised %s (%s line %d, in %s)' % (msg, os.path.relpath(f.filename, REPO), f.lineno, f.name),
                    None)
        f = tb[-1]
        return ('na', '%s (%s:%d)' % (msg, os.path.basename(f.filename), f.lineno))


# ---------------------------------------------------------------- data
def daily(seed, n, start='1950-01-01', cold=False, **kw):
    """a synthetic daily record (DataFrame) with everything disaggregate reads"""
    r = np.random.default_rng(seed)
    ix = pd.date_range(start, periods=n)
    tmin = r.uniform(-25, 20, n) if not cold else r.uniform(-30, -5, n)
    tmax = tmin + r.choice([0.0, 1.0], n, p=[.1, .9]) * r.uniform(0.5, 20, n)
    d = pd.DataFrame(index=ix)
    d['t_min'] = tmin
    d['t_max'] = tmax
    d['prec'] = np.where(r.random(n) < .4, 0, r.gamma(.6, 8, n))
    d['wind'] = r.uniform(0, 12, n)
    d['tskc'] = r.uniform(0, 1, n)
    d['shortwave'] = r.uniform(0, 600, n)
    d['vapor_pressure'] = r.uniform(5, 3500, n)
    d['t_pk'] = r.uniform(0, 1439, n)
    d['dur'] = r.uniform(2, 1440, n)
    q = np.random.default_rng(seed + 1)
    if q.random() < .4:
        # values with a special meaning: calm, dry, clear, overcast, freezing point, no range, whole numbers
        for k, v in (('wind', 0.), ('prec', 0.), ('tskc', 0.), ('tskc', 1.), ('shortwave', 0.), ('t_pk', 0.), ('t_pk', 1439.), ('t_pk', 720.), ('dur', 1440.), ('dur', 2.)):
            if q.random() < .25:
                d[k] = np.where(q.random(n) < q.choice([.3, 1.]), v, d[k].values)
        if q.random() < .3:
            d['t_min'] = np.round(d['t_min'].values / 5) * 5
            d['t_max'] = d['t_min'] + np.round(np.abs(d['t_max'].values - tmin))
        if q.random() < .2:
            d['t_min'] = np.where(q.random(n) < .6, 0., d['t_min'].values)
            d['t_max'] = np.maximum(d['t_min'].values, d['t_max'].values)
    for k, v in kw.items():
        d[k] = v
    return d


def geom(elev, lat, lr=0.0065):
    f = get('physics', 'solar_geom')
    r = f(float(elev), float(lat), float(lr))
    return {'tiny_rad_fract': r[0], 'daylength': r[1], 'potrad': r[2], 'tt_max0': r[3]}


ALLSUB = ['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'rel_humid', 'spec_humid', 'air_pressure',
          'wind', 'tskc']
ALLDAY = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet', 'wind', 'daylength']


def dataset(seed, n, ny=2, nx=2, start='1950-01-01', lat=None, lon=None, mask=None, extra=()):
    """forcing, state, domain datasets"""
    import xarray as xr
    r = np.random.default_rng(seed)
    t = pd.date_range(start, periods=n)
    lat = np.linspace(40, 40 + ny - 1, ny) if lat is None else np.asarray(lat, float)
    lon = np.linspace(-120, -120 + nx - 1, nx) if lon is None else np.asarray(lon, float)
    c3 = ('time', 'lat', 'lon')

    def block(m):
        tmin = r.uniform(-15, 15, (m, ny, nx))
        return {'prec': (c3, np.where(r.random((m, ny, nx)) < .4, 0, r.gamma(.6, 8, (m, ny, nx)))),
                't_min': (c3, tmin), 't_max': (c3, tmin + r.uniform(1, 18, (m, ny, nx)))}
    fb = block(n)
    fb['wind'] = (c3, r.uniform(0.5, 8, (n, ny, nx)))
    for k in extra:
        lo, hi = {'shortwave': (30, 500), 't_day': (-5, 20), 'tfmax': (.1, .9), 'tskc': (0, .9), 'pet': (.1, 6),
                  'tdew': (-15, 10), 'vapor_pressure': (200, 1500), 'longwave': (150, 400)}[k]
        fb[k] = (c3, r.uniform(lo, hi, (n, ny, nx)))
    f = xr.Dataset(fb, coords={'time': t, 'lat': lat, 'lon': lon})
    ts = pd.date_range(t[0] - pd.Timedelta('90 days'), periods=90)
    s = xr.Dataset(block(90), coords={'time': ts, 'lat': lat, 'lon': lon})
    mask = np.ones((ny, nx)) if mask is None else np.asarray(mask, float)
    d = xr.Dataset({'mask': (('lat', 'lon'), mask), 'elev': (('lat', 'lon'), r.uniform(0, 2500, (ny, nx)))},
                   coords={'lat': lat, 'lon': lon})
    m12 = ('month', 'lat', 'lon')
    d['t_pk'] = (m12, r.uniform(1, 1439, (12, ny, nx)))
    d['dur'] = (m12, r.uniform(2, 1400, (12, ny, nx)))
    return f, s, d


_n = [0]


def scratch():
    return tempfile.mkdtemp(prefix='m', dir=os.getcwd())


def config(f, s, d, dirname=None, **kw):
    """write the inputs, return the parameter dictionary"""
    dirname = dirname or scratch()
    fv = [v for v in f.data_vars]
    f.to_netcdf(dirname + '/f.nc')
    s.to_netcdf(dirname + '/s.nc')
    d.to_netcdf(dirname + '/d.nc')
    _n[0] += 1
    p = dict(start=pd.Timestamp(f.time.values[0]).to_pydatetime(), stop=pd.Timestamp(f.time.values[-1]).to_pydatetime(),
             forcing_fmt='netcdf', domain=dirname + '/d.nc', state=dirname + '/s.nc', forcing=dirname + '/f.nc',
             method='mtclim', scheduler='synchronous', time_step='60', out_dir=dirname, out_prefix='o%d' % _n[0],
             forcing_vars={k: k for k in fv}, state_vars={k: k for k in ['prec', 't_min', 't_max']},
             domain_vars={k: k for k in ['lat', 'lon'] + list(d.data_vars)}, chunks={}, verbose=logging.ERROR)
    outs = kw.pop('outs', None)
    p.update(kw)
    if 'out_vars' not in p:
        outs = outs or (ALLDAY if int(p['time_step']) == 1440 else ALLSUB)
        p['out_vars'] = {k: {'out_name': k} for k in outs}
    return p


def run(p, prefix=None):
    """MetSim(p).run(); returns {file name: loaded dataset} and the MetSim object"""
    import xarray as xr
    from metsim.metsim import MetSim
    if prefix:
        p = dict(p, out_prefix=prefix)
    ms = MetSim(p)
    ms.run()
    out = {}
    for n in sorted(os.listdir(p['out_dir'])):
        if n.startswith(p['out_prefix'] + '_') and n.endswith('.nc'):
            with xr.open_dataset(os.path.join(p['out_dir'], n)) as ds:
                out[n] = ds.load()
    return out, ms


def single(out):
    need(len(out) == 1, 'expected one output file, found %s' % sorted(out))
    return list(out.values())[0]


def day_of_year(index):
    """1-based calendar day, independent of pandas"""
    return np.array([(t.date() - t.date().replace(month=1, day=1)).days + 1 for t in index.to_pydatetime()])


def trunc(x):
    return int(math.trunc(x))


def capture(p):
    """run the model with the daily method replaced by a recorder: [(lat, lon, elev, frame the method was given)]"""
    from metsim.metsim import MetSim
    old = MetSim.methods
    seen = []

    class Rec(object):
        def __init__(self, inner):
            self.inner = inner

        def run(self, df, prm):
            seen.append((float(prm['lat']), float(prm['lon']), float(prm['elev']), df.copy()))
            return self.inner.run(df, prm)
    try:
        MetSim.methods = {k: Rec(v) for k, v in old.items()}
        ms = MetSim(p)
        ms.run()
    finally:
        MetSim.methods = old
    return seen
