"""Reference formulas, written from the published equations (numpy only, no metsim import)."""
import numpy as np

OPTAM = [2.90, 3.05, 3.21, 3.39, 3.69, 3.82, 4.07, 4.37, 4.72, 5.12, 5.60, 6.18, 6.88, 7.77, 8.90, 10.39, 12.44, 15.36,
         19.79, 26.96, 30.00]


def svp(t):
    """Maidment saturation vapour pressure (Pa) with the ice correction"""
    t = np.asarray(t, float)
    e = 610.78 * np.exp(17.269 * t / (237.3 + t))
    return np.where(t < 0, e * (1 + .00972 * t + .000042 * t * t), e)


def air_pressure(t, elev, lapse):
    tv = 273.15 + np.asarray(t, float) - .5 * elev * lapse
    return 101.325 * np.exp(-(elev * 9.80665) / (287 * tv))


def spec_humid(e, p):
    m = .62196351 * e / (p - e)
    return m / (1 + m)


def atm_pres(elev, lr):
    return 101325. * (1 - lr * elev / 288.15) ** (9.80665 / (lr * 8.3143 / 28.9644e-3))


def t_day(tmin, tmax, coef):
    m = (tmin + tmax) / 2
    return m + (tmax - m) * coef


def tfmax(dtr, sm, prec, thresh, scalar):
    b = .031 + .201 * np.exp(-.185 * sm)
    t = 1 - .9 * np.exp(-b * dtr ** 1.5)
    return np.where(prec > thresh, t * scalar, t)


def tskc(tf, opt):
    return 1 - tf if opt.lower() == 'cloud_deardorff' else np.sqrt((1 - tf) / .65)


def pet(sw, tday, dayl, elev, lr):
    """mm/day"""
    pa = atm_pres(elev, lr)
    rnet = sw * .72
    lh = 2.5023e6 - 2430.54 * tday
    gamma = 1010. * pa / (lh * .62196351)
    s = (svp(tday + .2) - svp(tday - .2)) / ((tday + .2) - (tday - .2))
    return 1.26 * (s / (s + gamma)) * rnet * dayl / lh


def shortwave(tf, vp, tt, pot):
    return pot * np.maximum(tt - 6.1e-5 * vp, 1e-4) * tf


def tdew(pet_, tmin, sp, dtr):
    r = pet_ / np.maximum(sp, 80.)
    return (tmin + 273.15) * (-.127 + 1.121 * (1.003 - 1.444 * r + 12.312 * r ** 2 - 32.766 * r ** 3) + .0006 * dtr) - 273.15


def mtclim(d, p, itmax=500):
    """the daily simulation; d: dict of arrays"""
    o = {}
    o['t_day'] = t_day(d['t_min'], d['t_max'], p['tday_coef'])
    o['tfmax'] = tfmax(d['dtr'], d['smoothed_dtr'], d['prec'], p['sw_prec_thresh'], p['rain_scalar'])
    o['tskc'] = tskc(o['tfmax'], p['lw_cloud'])
    sw = lambda vp: shortwave(o['tfmax'], vp, d['tt_max'], d['potrad'])
    pe = lambda s: pet(s, o['t_day'], d['daylength'], p['elev'], p['lapse_rate'])
    td = lambda x: tdew(x, d['t_min'], d['seasonal_prec'], d['dtr'])
    old = d['t_min']
    new = td(pe(sw(svp(old))))
    gaps = []
    for _ in range(itmax):
        gap = np.sqrt(np.mean((new - old) ** 2))
        gaps.append(gap)
        if not gap > p['tdew_tol']:
            break
        old = new
        new = td(pe(sw(svp(old))))
    else:
        return None
    o['gaps'] = gaps
    o['prev'] = old
    o['tdew'] = new
    o['vapor_pressure'] = svp(new)
    o['shortwave'] = sw(o['vapor_pressure'])
    o['pet'] = pe(o['shortwave'])
    return o


EMIS = {
    'default': lambda e, t: .74 + .0049 * e,
    'tva': lambda e, t: .74 + .0049 * e,
    'anderson': lambda e, t: .68 + .036 * np.sqrt(e),
    'brutsaert': lambda e, t: 1.24 * (e / t) ** .14285714,
    'satterlund': lambda e, t: 1.08 * (1 - np.exp(-e ** (t / 2016))),
    'idso': lambda e, t: .7 + 5.95e-5 * e * np.exp(1500 / t),
    'prata': lambda e, t: 1 - (1 + 46.5 * e / t) * np.exp(-np.sqrt(1.2 + 3 * (46.5 * e / t))),
}
CLOUD = {
    'default': lambda em, c: (1 + .17 * c ** 2) * em,
    'tva': lambda em, c: (1 + .17 * c ** 2) * em,
    'cloud_deardorff': lambda em, c: c + (1 - c) * em,
}


def longwave(t, e_kpa, c, lw_type, lw_cloud):
    k = np.asarray(t, float) + 273.15
    e = np.asarray(e_kpa, float) * 10
    return CLOUD[lw_cloud.lower()](EMIS[lw_type.lower()](e, k), c) * 5.669e-8 * k ** 4


def shortwave_sub(sw, dl, doy, frac, ts):
    """sub-daily flux, local time; frac has one row per calendar day"""
    k = 1440 // ts
    out = np.zeros((len(sw), k))
    for d in range(len(sw)):
        row = frac[doy[d] - 1]
        for s in range(k):
            out[d, s] = sw[d] * dl[d] * row[s * 2 * ts:(s + 1) * 2 * ts].sum() / (ts * 60)
    return out.ravel()


def roll_left(x, k):
    x = np.asarray(x)
    return x[(np.arange(len(x)) + k) % len(x)]


def declination(i):
    return -.4092797 * np.cos((i + 11.25) * .017214)


def sun(mask_row):
    """(sunrise, sunset) in minutes of one day's radiation row, None where there is none"""
    m = np.asarray(mask_row) > 0
    up = np.where(~m[:-1] & m[1:])[0]
    dn = np.where(m[:-1] & ~m[1:])[0]
    rise = up[-1] * .5 if len(up) and up[-1] > 0 else 240.
    sett = dn[-1] * .5 if len(dn) and dn[-1] > 0 else 960.
    return rise, sett
