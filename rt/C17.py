"""Antecedent windows."""
from .common import *

RULE = ('random domains, records of 1-200 days, state of 90 days; the columns the daily method receives against plain windows; a second run with changed '
        'later days; records with t_max < t_min somewhere are rejected')
QUICK, THOROUGH = 40, 2500


def warm():
    geom(0, 45)


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 10, 29, 30, 31, 60, 89, 90, 91, 120, 200]), ny=rng.choice([1, 2]), nx=rng.choice([1, 2]),
                   start=rng.choice(['1950-01-01', '2000-03-01', '2001-12-15']), bad=rng.random() < .25, offset=rng.choice([0, 0, 3]))


FIXED = [dict(seed=i, n=n, ny=1, nx=2, start='2000-03-10', bad=b, offset=0) for i, n in enumerate([1, 29, 30, 31, 89, 90, 91, 130]) for b in (0, 1)]


def check(c):
    n = c['n']
    off = min(c['offset'], n - 1)
    fo, st, do = dataset(c['seed'], n, c['ny'], c['nx'], start=c['start'])
    r = np.random.default_rng(c['seed'] + 1)
    if off:
        # the run starts later than the forcing file, the state belongs to the run's start
        st = st.assign_coords(time=st.time.values + np.timedelta64(off, 'D'))
    # huge and tiny days make a window that is one day off visible
    st.prec.values[:] *= r.choice([1., 30.], st.prec.shape, p=[.8, .2])
    kw = dict(time_step=1440, outs=['prec'], start=pd.Timestamp(fo.time.values[off]).to_pydatetime())
    if c['bad']:
        i = tuple(int(r.integers(x)) for x in fo.t_max.shape)
        i = (max(i[0], off),) + i[1:]
        fo.t_max.values[i] = fo.t_min.values[i] - r.choice([1e-6, 1., 10.])
        p = config(fo, st, do, **kw)
        try:
            capture(p)
        except Exception:
            return
        raise Fail('a record with t_max < t_min was accepted (day %d)' % i[0])
    seen = capture(config(fo, st, do, **kw))
    need(len(seen) == c['ny'] * c['nx'], 'cells run: %d' % len(seen))
    for la, lo, el, d in seen:
        i, j = int(np.argmin(abs(do.lat.values - la))), int(np.argmin(abs(do.lon.values - lo)))
        x = lambda k: np.r_[st[k].values[:, i, j], fo[k].values[off:, i, j]]
        rng_ = x('t_max') - x('t_min')
        m = n - off
        sm = [rng_[90 + t - 29:91 + t].mean() for t in range(m)]
        sp = [365.25 * x('prec')[90 + t - 89:91 + t].mean() for t in range(m)]
        for k in ('smoothed_dtr', 'seasonal_prec', 'dtr'):
            need(k in d, 'column %s missing' % k)
        need(len(d) == m, '%d daily rows for %d days' % (len(d), m))
        close(d['smoothed_dtr'].values, sm, 'smoothed temperature range')
        close(d['seasonal_prec'].values, sp, 'seasonal precipitation', rtol=1e-6)
        close(d['dtr'].values, rng_[90:], 'daily range')
    if n - off > 1 and not off:
        t = int(r.integers(1, n))
        f2 = fo.copy(deep=True)
        f2.prec.values[t:] += 17.
        f2.t_max.values[t:] += 3.
        two = capture(config(f2, st, do, **kw))
        for (a, b, e, d1), (a2, b2, e2, d2) in zip(seen, two):
            for k in ('smoothed_dtr', 'seasonal_prec', 'dtr'):
                close(d2[k].values[:t], d1[k].values[:t], k + ' depends on later days', rtol=1e-9)
