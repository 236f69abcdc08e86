"""Output time axis and file splitting."""
from .common import *
import re

RULE = ('single-cell runs of 1-70 days (and axis-only checks up to 800 days), random starts incl. month/leap/year ends, every admissible step, output '
        'frequencies D..YS, both stamp conventions, standard and no-leap calendars')
QUICK, THOROUGH = 40, 2500


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        start = rng.choice(['1950-01-01', '2000-02-27', '1999-12-30', '2001-01-31', '2004-02-28', '1980-%02d-%02d' % (rng.randrange(1, 13), rng.randrange(1, 29))])
        kind = rng.choice(['run', 'run', 'axis'])
        yield dict(seed=rng.randrange(1 << 30), kind=kind, n=rng.choice([1, 2, 3, 31, 40] if kind == 'run' else [1, 28, 59, 60, 365, 366, 400, 800]),
                   start=start, ts=rng.choice([1440, 360, 180, 60, 240] if kind == 'run' else [1440, 1440, 360, 240, 60, 90]), freq=rng.choice([None, None, '', 'D', 'MS', 'M', '7D', '10D', 'W', 'YS', 'Y', 'QS', '6H', '12H', '36H', '18H', '90T']),
                   pe=rng.random() < .5, cal=rng.choice(['standard', 'standard', 'noleap']))


FIXED = [dict(seed=1, kind='run', n=3, start='1999-12-30', ts=ts, freq=f, pe=q, cal='standard') for ts in (60, 360, 1440) for f in (None, 'D', 'MS', '6H', '90T') for q in (0, 1)] + \
        [dict(seed=1, kind='axis', n=400, start='1999-12-15', ts=ts, freq=f, pe=q, cal=cal) for ts in (60, 1440) for f in (None, 'MS') for q in (0, 1) for cal in ('standard', 'noleap')]


def check(c):
    from metsim.metsim import MetSim
    n, ts = c['n'], c['ts']
    fo, st, do = dataset(c['seed'], n, 1, 1, start=c['start'])
    if c['cal'] == 'noleap':
        keep = ~((fo.time.dt.month == 2) & (fo.time.dt.day == 29))
        fo = fo.isel(time=np.where(keep.values)[0])
        n = fo.sizes['time']
        if n == 0:
            return
        # 90 no-leap days before the start
        import cftime
        t = pd.date_range(pd.Timestamp(fo.time.values[0]) - pd.Timedelta('95 days'), pd.Timestamp(fo.time.values[0]) - pd.Timedelta('1 days'))
        t = t[~((t.month == 2) & (t.day == 29))]
        if c['kind'] == 'run' and len(pd.date_range(pd.Timestamp(fo.time.values[0]) - pd.Timedelta('90 days'), periods=90)) != len(t[-90:]):
            return
        if ((pd.date_range(pd.Timestamp(fo.time.values[0]) - pd.Timedelta('90 days'), periods=90).strftime('%m%d') == '0229').any()):
            return      # the state window itself would hold a leap day
        for d in (fo,):
            d.time.encoding.update(calendar='noleap', units='days since 1900-01-01')
    p = config(fo, st, do, time_step=ts, out_freq=c['freq'], period_ending=bool(c['pe']), calendar=c['cal'], out_precision='f8', outs=['prec', 'shortwave'])
    days = pd.DatetimeIndex(fo.time.values)
    k = 1440 // ts
    exp = pd.DatetimeIndex(np.concatenate([(d + pd.to_timedelta(np.arange(k) * ts, unit='min')).values for d in days]))
    if c['pe']:
        # one step later on the calendar in use
        e2 = []
        for t in exp:
            u = t + pd.Timedelta(minutes=ts)
            if c['cal'] == 'noleap' and (u.month, u.day) == (2, 29):
                u += pd.Timedelta('1 days')
            e2.append(u)
        exp = pd.DatetimeIndex(e2)
    if c['kind'] == 'axis':
        ms = MetSim(p)
        parts = [pd.DatetimeIndex(t) for t in ms._get_output_times(freq=c['freq'], period_ending=bool(c['pe']))]
        names = [ms._get_output_filename(t) for t in parts]
        files = [(os.path.basename(a), b) for a, b in zip(names, parts)]
    else:
        out, ms = run(p, 'run')
        files = []
        for a, ds in out.items():
            t = ds.indexes['time']
            files.append((a, pd.DatetimeIndex([pd.Timestamp(x.isoformat() if hasattr(x, 'isoformat') else x) for x in t])))
        files.sort(key=lambda x: x[1][0])
    need(len({a for a, b in files}) == len(files), 'two files share a name')
    allt = np.concatenate([b.values for a, b in files]) if files else np.array([])
    need(len(allt) == len(exp), '%d time stamps written for %d steps' % (len(allt), len(exp)))
    need((allt == exp.values).all(), 'time stamps differ, first at %s' % (int(np.argmax(allt != exp.values)),))
    for a, b in files:
        m = re.search(r'_(\d{8})-(\d{8})(?:_\d{4}-\d{4})?\.nc$', a)
        need(m, 'file name ' + a)
        need(m.group(1) == b[0].strftime('%Y%m%d') and m.group(2) == b[-1].strftime('%Y%m%d'),
             'file %s holds %s .. %s' % (a, b[0], b[-1]))
    if not c['freq']:
        need(len(files) == 1, '%d files without an output frequency' % len(files))
    elif c['freq'] == 'D' and not c['pe']:
        need(len(files) == n, '%d files for %d days' % (len(files), n))
    if c['kind'] == 'run':
        # values: same as one beginning-stamped file
        one = single(run(dict(p, out_freq=None, period_ending=False), 'one')[0])
        for v in ('prec', 'shortwave'):
            got = np.concatenate([out[a][v].values for a, b in files])
            close(got, one[v].values, '%s across files' % v, rtol=1e-12, atol=0)
