"""Forcing readers."""
from .common import *
import struct

RULE = ('random binary (1-7 variables in any order, scales, signedness), ascii (column order) and netcdf (renamed variables, sub-windows) forcing on random '
        'grids and masks; constant_vars; monthly storm parameters; what each cell of the daily method receives against the file')
QUICK, THOROUGH = 60, 3000


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        names = ['prec', 't_max', 't_min'] + [v for v in ('wind', 'shortwave', 'vapor_pressure', 'air') if rng.random() < .4]
        rng.shuffle(names)
        yield dict(seed=rng.randrange(1 << 30), fmt=rng.choice(['binary', 'binary', 'ascii', 'netcdf']), names=names, n=rng.choice([1, 2, 5, 31, 40]),
                   ny=rng.choice([1, 2]), nx=rng.choice([1, 2, 3]), extra=rng.choice([0, 0, 3]), const=rng.random() < .3, months=rng.random() < .4,
                   start=rng.choice(['1950-01-01', '1999-12-20', '2000-02-25', '2001-11-28']), off=rng.choice([0, 0, 2]),
                   stamp=rng.choice([0, 0, 1, 43200, 43201, 86399]))


FIXED = [dict(seed=i, fmt=f, names=nm, n=n, ny=2, nx=2, extra=e, const=k, months=k, start='1999-12-28', off=0)
         for i, (f, nm, n, e, k) in enumerate([(f, nm, n, e, k) for f in ('binary', 'ascii', 'netcdf') for nm in (['prec', 't_max', 't_min', 'wind'], ['t_min', 'prec', 't_max'],
                                               ['wind', 't_max', 't_min', 'prec', 'shortwave']) for n, e, k in ((2, 0, 0), (6, 2, 1))])] + \
        [dict(seed=5, fmt='netcdf', names=['prec', 't_max', 't_min'], n=6, ny=1, nx=2, extra=0, const=0, months=0, start='1999-12-28', off=1, stamp=x) for x in (43200, 86399)] + \
        [dict(seed=9, fmt='netcdf', names=['prec', 't_max', 't_min'], n=370, ny=1, nx=1, extra=0, const=0, months=1, start='2001-01-01', off=0)]


def check(c):
    r = np.random.default_rng(c['seed'])
    n, ny, nx = c['n'], c['ny'], c['nx']
    tot = n + c['extra']
    mask = (r.random((ny, nx)) < .8).astype(float)
    mask.flat[0] = 1
    lat = 40.0625 + .125 * np.arange(ny)
    lon = -120.1875 + .125 * np.arange(nx)
    fo, st, do = dataset(c['seed'], tot, ny, nx, start=c['start'], lat=lat, lon=lon, mask=mask)
    vals = {'wind': r.uniform(0, 8, (tot, ny, nx)), 'shortwave': r.uniform(20, 300, (tot, ny, nx)), 'vapor_pressure': r.uniform(10, 300, (tot, ny, nx)),
            'air': r.uniform(60, 101, (tot, ny, nx))}
    for v in ('prec', 't_min', 't_max'):
        vals[v] = fo[v].values
    names = c['names']
    d = scratch()
    kw = dict(time_step=1440, outs=['prec'], out_precision='f8')
    want = {}
    if c['fmt'] == 'netcdf':
        import xarray as xr
        alias = {v: 'v%d' % k for k, v in enumerate(r.permutation(sorted(names)))}
        f2 = xr.Dataset({alias[v]: (('time', 'lat', 'lon'), vals[v]) for v in names}, coords=fo.coords)
        f2['noise'] = f2[alias['prec']] * 0 - 99
        want = {v: vals[v] for v in names}
        off = min(c['off'], n - 1)
        p = config(f2, st.assign_coords(time=st.time.values + np.timedelta64(off, 'D')), do, dirname=d, **kw)
        p['forcing_vars'] = {alias[v]: v for v in names}
        if c.get('stamp'):        # the records carry a time of day
            f3 = f2.load().assign_coords(time=fo.time.values + np.timedelta64(c['stamp'], 's'))
            p['forcing'] = os.path.join(d, 'stamped.nc')
            f3.to_netcdf(p['forcing'])
        p['start'] = pd.Timestamp(fo.time.values[off]).to_pydatetime()
        p['stop'] = pd.Timestamp(fo.time.values[n - 1]).to_pydatetime()
        lo, hi = off, n
    else:
        p = config(fo, st, do, dirname=d, **kw)
        p['stop'] = pd.Timestamp(fo.time.values[n - 1]).to_pydatetime()
        files = []
        conf = {}
        if c['fmt'] == 'binary':
            for v in names:
                sc = float(r.choice([10, 20, 40, 100]))
                sg = 'signed' if v in ('t_min', 't_max') or r.random() < .4 else 'unsigned'
                conf[v] = '%g %s' % (sc, sg)
                top = 65535 if sg == 'unsigned' else 32767
                q = np.clip(np.round(vals[v] * sc), 0 if sg == 'unsigned' else -32768, top).astype(int)
                if v == 'shortwave' and sg == 'unsigned':
                    q.flat[0] = 40000
                want[v] = (q, sc, sg)
            if 't_max' in want:          # rounding must not reorder the extremes
                q, sc, sg = want['t_max']
                q2, sc2, _ = want['t_min']
                q = np.maximum(q, np.ceil(q2 / sc2 * sc).astype(int) + 1)
                want['t_max'] = (q, sc, sg)
        else:
            conf = {v: v for v in names}
            want = {v: np.round(vals[v], 4) for v in names}
        for i in range(ny):
            for j in range(nx):
                fn = os.path.join(d, 'data_%.4f_%.4f' % (lat[i], lon[j]))
                files.append(fn)
                if c['fmt'] == 'binary':
                    with open(fn, 'wb') as h:
                        for t in range(tot):
                            for v in names:
                                q, sc, sg = want[v]
                                h.write(struct.pack('H' if sg == 'unsigned' else 'h', int(q[t, i, j])))
                else:
                    with open(fn, 'w') as h:
                        for t in range(tot):
                            h.write('  '.join('%.4f' % want[v][t, i, j] for v in names) + '\n')
        # files of places that are no cell of the domain
        for la, lo_ in ((lat[0] + .03, lon[0]), (lat[0], lon[-1] + 5), (lon[0], lat[0])):
            fn = os.path.join(d, 'data_%.4f_%.4f' % (la, lo_))
            files.append(fn)
            with open(fn, 'wb') as h:
                h.write(struct.pack('h', 77) * (tot * len(names)) if c['fmt'] == 'binary' else (' '.join(['7'] * len(names)) + '\n').encode() * tot)
        if c['fmt'] == 'binary':
            want = {v: q / sc for v, (q, sc, sg) in want.items()}
        r.shuffle(files)
        p.update(forcing_fmt=c['fmt'], forcing=files, forcing_vars=conf)
        lo, hi = 0, n
    const = {}
    if c['const']:
        const = {'wind': 3.25, 'extra_const': -7.5}
        p['constant_vars'] = {k: str(v) if r.random() < .5 else v for k, v in const.items()}
    if c['months']:
        p['prec_type'] = 'mix'
        p['time_step'] = 360
    seen = capture(p)
    need(len(seen) == int((mask > 0).sum()), 'cells run: %d, active %d' % (len(seen), int((mask > 0).sum())))
    for la, lo_, el, df in seen:
        i, j = int(np.argmin(abs(lat - la))), int(np.argmin(abs(lon - lo_)))
        need(abs(lat[i] - la) < 1e-6 and abs(lon[j] - lo_) < 1e-6 and mask[i, j] > 0, 'cell %r,%r' % (la, lo_))
        close([el], [do.elev.values[i, j]], 'elevation')
        need(len(df) == hi - lo, '%d days delivered of %d' % (len(df), hi - lo))
        need((df.index == pd.DatetimeIndex(fo.time.values)[lo:hi]).all(), 'days delivered')
        for v in names:
            if v in const:
                continue
            need(v in df, 'variable %s not delivered' % v)
            close(df[v].values, want[v][lo:hi, i, j], '%s (%s) of cell %d,%d' % (v, c['fmt'], i, j), rtol=1e-6, atol=1e-9)
        for v, x in const.items():
            need(v in df, 'constant %s not delivered' % v)
            close(df[v].values, np.full(hi - lo, x), 'constant %s' % v)
        if c['months']:
            for v in ('t_pk', 'dur'):
                need(v in df, 'monthly parameter %s not delivered' % v)
                close(df[v].values, do[v].values[df.index.month - 1, i, j], 'monthly parameter ' + v)
