"""Spec functions (terms) for the published equations; shared by the contracts, independent of the code."""
from .common import *

EXP, SQRT = 'exp', 'sqrt'


def svp(t):
    """Maidment (1992) saturation vapour pressure, Pa, with the ice correction below 0 C"""
    e = mul(F('610.78'), uf('exp', div(mul(F('17.269'), t), add(F('237.3'), t))))
    ice = add(1, add(mul(F('0.00972'), t), mul(F('0.000042'), mul(t, t))))
    return ite(cmp('<', t, 0), mul(e, ice), e)


def atm_pres(elev, lr):
    return mul(101325, power(sub(1, div(mul(lr, elev), F('288.15'))), div(F('9.80665'), mul(lr, div(F('8.3143'), F('0.0289644'))))))


def t_day(tmin, tmax, coef):
    m = div(add(tmin, tmax), 2)
    return add(m, mul(sub(tmax, m), coef))


def tfmax(dtr, sm, prec, thresh, scalar):
    b = add(F('0.031'), mul(F('0.201'), uf('exp', mul(F('-0.185'), sm))))
    t = sub(1, mul(F('0.9'), uf('exp', mul(-1, mul(b, power(dtr, F('1.5')))))))
    return ite(cmp('>', prec, thresh), mul(t, scalar), t)


def tskc(tf, deardorff):
    return sub(1, tf) if deardorff else uf('sqrt', div(sub(1, tf), F('0.65')))


def shortwave(tf, vp, tt, pot):
    return mul(mul(pot, maximum(sub(tt, mul(F('0.000061'), vp)), F('0.0001'))), tf)


def pet_parts(tday, elev, lr):
    """slope of saturation pressure, psychrometer parameter, latent heat"""
    lh = sub(2502300, mul(F('2430.54'), tday))
    gamma = div(mul(1010, atm_pres(elev, lr)), mul(lh, F('0.62196351')))
    s = div(sub(svp(add(tday, F('0.2'))), svp(sub(tday, F('0.2')))), F('0.4'))
    return s, gamma, lh


def pet(sw, tday, dayl, elev, lr):
    """Priestley-Taylor / Kimball potential evapotranspiration, mm/day"""
    s, gamma, lh = pet_parts(tday, elev, lr)
    return div(mul(mul(mul(F('1.26'), div(s, add(s, gamma))), mul(sw, F('0.72'))), dayl), lh)


def tdew(pet_, tmin, sp, dtr):
    r = div(pet_, maximum(sp, 80))
    k = add(tmin, F('273.15'))
    p = sub(add(sub(F('1.003'), mul(F('1.444'), r)), mul(F('12.312'), mul(r, r))), mul(F('32.766'), mul(mul(r, r), r)))
    return sub(mul(k, add(add(F('-0.127'), mul(F('1.121'), p)), mul(F('0.0006'), dtr))), F('273.15'))
