"""Solar geometry."""
from .common import *
from . import ref

RULE = ('elevation -500..9000 m, latitude -90..90 with emphasis on poles, equator, polar circles and latitudes where the sun just grazes '
        'the horizon on some day, lapse rates 0.001..0.012; all 366 rows of each call checked')
QUICK, THOROUGH = 500, 30000


def warm():
    geom(0, 45)


def graze(i):
    """a latitude at which |tan(lat) tan(decl)| is one on day i"""
    return (np.pi / 2 - abs(ref.declination(i))) / .01745329


def cases(rng, tier):
    while True:
        k = rng.random()
        if k < .35:
            lat = rng.uniform(-90, 90)
        elif k < .5:
            lat = rng.choice([-90, 90, 0, 66.5, -66.5, 66.56, 23.44, 89.999, -89.999, 1e-9, 45])
        else:
            lat = rng.choice([-1, 1]) * (graze(rng.randrange(365)) + rng.choice([0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, rng.uniform(-.01, .01)]))
        yield dict(lat=float(lat), elev=rng.choice([0., rng.uniform(-500, 9000), 9000., -500.]), lr=rng.choice([.0065, rng.uniform(.001, .012)]))


FIXED = [dict(lat=float(l), elev=e, lr=.0065) for l in (-90, -66.56, -45, 0, 30, 60, 66.56, 75, 90) for e in (0., 3000.)]


def check(c):
    g = geom(c['elev'], c['lat'], c['lr'])
    fr, dl, pot, tt = (np.asarray(g[k]) for k in ('tiny_rad_fract', 'daylength', 'potrad', 'tt_max0'))
    need(fr.shape == (366, 2880) and dl.shape == (366,) and pot.shape == (366,) and tt.shape == (366,), 'shapes')
    for a, nm in ((fr, 'radiation fractions'), (dl, 'daylength'), (pot, 'potential radiation'), (tt, 'transmittance')):
        need(np.isfinite(a).all(), nm + ' not finite')
        need((a >= 0).all(), nm + ' negative')
        close(a[365], a[364], nm + ': day 366 does not repeat day 365', rtol=0, atol=0)
    need((dl <= 86400).all(), 'daylength above 86400 s')
    need((tt <= 1).all(), 'transmittance above one')
    lat = np.clip(c['lat'] * .01745329, -np.pi / 2, np.pi / 2)     # the documented constant
    i = np.arange(365)
    decl = ref.declination(i)
    with np.errstate(all='ignore'):
        x = -np.sin(lat) * np.sin(decl) / (np.cos(lat) * np.cos(decl))
    hss = np.arccos(np.clip(x, -1, 1))
    # the constants carry 7 digits, so near polar day and night arccos amplifies their rounding
    close(dl[:365], np.minimum(2 * hss * 13750.9871, 86400), 'daylength', rtol=1e-8, atol=.05)
    s = fr.sum(axis=1)
    lit = dl[:365] > 120
    need((np.abs(s[:365][lit] - 1) < np.minimum(.9, 60. / dl[:365][lit] * 3)).all(), 'fractions of a day with sun do not sum to one: %r' % (
        s[:365][lit][np.argmax(np.abs(s[:365][lit] - 1))],))
    need((s <= 1 + 1e-9).all(), 'fractions sum to more than one')
    need((s[dl == 0] == 0).all(), 'radiation without daylength')
    # sun below the horizon: sine of the elevation from the hour angle of the step (its start, as the code samples)
    h = (np.arange(2880) * 30. - 43200) / 13750.9871
    cza = np.cos(lat) * np.cos(decl)[:, None] * np.cos(h)[None] + np.sin(lat) * np.sin(decl)[:, None]
    slack = 31 / 13750.9871 + 1e-5
    need((fr[:365][cza < -slack] == 0).all(), 'radiation with the sun below the horizon')
    # where it is up, the fraction is proportional to the sine of elevation (within the 30 s step)
    for d in (0, 80, 172, 265, 300, 355):
        if dl[d] > 7200:
            e = np.maximum(cza[d], 0)
            e /= e.sum()
            need(np.abs(fr[d] - e).sum() < .02 + 400 / dl[d], 'fractions of day %d are not proportional to the solar elevation' % d)
            top = 1368. + 45.5 * np.sin(2 * np.pi * d / 365.25 + 1.7)
            mean = top * np.maximum(cza[d], 0).sum() * 30 / dl[d]
            need(abs(pot[d] - mean) < .01 * mean + 1, 'mean potential radiation of day %d is %r, expected about %r' % (d, pot[d], mean))
            t1 = 1 - c['lr'] * c['elev'] / 288.15
            trans = .87 ** (t1 ** (9.80665 / (c['lr'] * 8.3143 / 28.9644e-3)))
            cz = cza[d][cza[d] > 0]
            am = 1 / (cz + 1e-7)
            deg = np.clip((np.arccos(np.clip(cz, -1, 1)) / .01745329).astype(int) - 69, 0, 20)
            am = np.where(am > 2.9, np.array(ref.OPTAM)[deg], am)
            t = (trans ** am * cz).sum() / cz.sum()
            need(abs(tt[d] - t) < .01, 'clear-sky transmittance of day %d is %r, expected about %r' % (d, tt[d], t))
