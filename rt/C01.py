"""Sub-daily precipitation."""
from .common import *

RULE = ('random daily series (1-8 days) with wet, dry and freezing days; t_pk in [0,1439], dur in [2,3000] incl. windows '
        'reaching past the day; three methods in any case; admissible steps; local and UTC')
QUICK, THOROUGH = 160, 6000


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 3, 4, 8]), ts=rng.choice(STEPS + [1, 1, 1]),
                   m=rng.choice(['uniform', 'triangle', 'mix', 'Mix', 'TRIANGLE']), utc=rng.random() < .3,
                   lon=rng.uniform(-180, 180), whole=rng.random() < .5, wide=rng.random() < .3,
                   start=rng.choice(['1950-01-01', '2000-02-27', '1999-12-30']))


FIXED = [dict(seed=i, n=4, ts=ts, m=m, utc=False, lon=10., whole=True, wide=w, start='1950-01-30')
         for i, ts in enumerate([1, 30, 60, 180, 1440]) for m in ('uniform', 'triangle', 'mix') for w in (False, True)]


def weights(pk, dur):
    """the documented triangle, minute by minute"""
    j = np.arange(1440)
    a, b = pk - dur / 2, pk + dur / 2
    w = np.zeros(1440)
    p = j[(j <= pk) & (j >= a)]
    q = j[(j >= pk) & (j <= b)]
    if len(p) == 1:
        w[p] = 0.0
    elif len(p):
        w[p] = (p - p[0]) / (p[-1] - p[0])
    if len(q) == 1:
        w[q] = 1.0
    elif len(q):
        w[q] = (q[-1] - q) / (q[-1] - q[0])
    return w


def check(c):
    f = get('disaggregate', 'prec')
    n, ts = c['n'], c['ts']
    r = np.random.default_rng(c['seed'])
    ix = pd.date_range(c['start'], periods=n)
    P = np.where(r.random(n) < .25, 0, r.gamma(.6, 8, n))
    T = r.uniform(-8, 8, n)
    T[r.random(n) < .2] = 0.0
    pk = r.uniform(0, 1439, n)
    dur = r.uniform(4, 3000 if c['wide'] else 1200, n)
    if c['whole']:
        pk, dur = np.round(pk), np.round(dur / 2) * 2
    # at least two minutes on one side of the peak must lie inside the day
    pk = np.clip(pk, 3, 1436)
    dur = np.maximum(dur, 6)
    S = lambda v, nm: pd.Series(v.copy(), index=ix, name=nm)
    p = params(prec_type=c['m'], utc_offset=c['utc'], lon=c['lon'], time_step=ts)
    out = np.asarray(f(S(P, 'prec'), S(T, 't_min'), ts, p, S(pk, 't_pk'), S(dur, 'dur')))
    k = 1440 // ts
    need(out.shape == (n * k,), 'prec gives %s values for %d steps' % (out.shape, n * k))
    le(0, out, 'negative precipitation', 1e-12)
    close(out.sum(), P.sum(), 'total over the record', rtol=1e-9)
    m = c['m'].lower()
    if c['utc']:
        return
    close(out.reshape(n, k).sum(axis=1), P, 'daily total', rtol=1e-9)
    exp = np.zeros((n, 1440))
    for d in range(n):
        if m == 'uniform' or (m == 'mix' and T[d] < 0):
            exp[d] = P[d] / 1440
        else:
            w = weights(pk[d], dur[d])
            exp[d] = P[d] * w / w.sum()
    close(out, exp.reshape(n * k, ts).sum(axis=1), 'share of the day in each step', rtol=1e-7)
