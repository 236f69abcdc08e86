"""Wind and cloud fraction: held through the local day; bounded and mean preserving with a UTC shift."""
from .common import *

RULE = ('random daily series (1-12 days), admissible step, longitude in [-180,180] and its edges; both functions; '
        'plus the wind and tskc columns of disaggregate')
QUICK, THOROUGH = 160, 8000


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 3, 5, 12]), ts=rng.choice(STEPS),
                   utc=rng.random() < .6, fn=rng.choice(['wind', 'tskc']),
                   lon=rng.choice([rng.uniform(-180, 180), rng.choice([-180, 180, 0, .25, -.25, 179.99, 90, -90])]))


FIXED = [dict(seed=i, n=3, ts=ts, utc=u, fn=f, lon=-117.3)
         for i, ts in enumerate([1, 5, 60, 144, 180, 360, 1440]) for u in (False, True) for f in ('wind', 'tskc')]


def check(c):
    f = get('disaggregate', c['fn'])
    r = np.random.default_rng(c['seed'])
    w = r.uniform(0, 1 if c['fn'] == 'tskc' else 20, c['n'])
    if c['seed'] % 5 == 0:
        w[:] = w[0]
    k = 1440 // c['ts']
    w0 = w.copy()
    out = np.asarray(f(w, c['ts'], params(utc_offset=c['utc'], lon=c['lon'], time_step=c['ts'])))
    need(out.shape == (c['n'] * k,), '%s gives %s values for %d steps' % (c['fn'], out.shape, c['n'] * k))
    close(w, w0, 'daily input changed')
    if not c['utc']:
        close(out, np.repeat(w0, k), '%s in local time is not the day value' % c['fn'])
    else:
        le(w0.min(), out, 'below the smallest daily value')
        le(out, w0.max(), 'above the largest daily value')
        close(out.mean(), w0.mean(), 'record mean changed', rtol=1e-9)
