"""Daily mtclim estimates: each function of methods/mtclim.py and the physics helpers against its equation."""
from .common import *
from . import formulas as fm

ASSUMPTIONS = ['exp, sqrt and non-integer powers are uninterpreted functions with the axioms listed in the trusted base']


def between(h, arr, lo, hi):
    forall(h, arr, lambda i, x: land(cmp('>=', x, lo), cmp('<=', x, hi)))


def setup(h):
    n = h.c.int('n_days')
    h.c.assume(n >= 1)
    return n


def t_day(h):
    c = h.c
    n = setup(h)
    a, b = h.arr(n, 't_min'), h.arr(n, 't_max')
    k = c.real('tday_coef')
    i = h.idx(n)
    o = [a.at(i), b.at(i)]
    r = h.call(h.fn('methods.mtclim', 't_day'), a, b, h.dict(tday_coef=k))
    h.prove('one value per day', eq(r.shape[0], n))
    c.assume(cmp('<=', o[0], o[1]))
    c.cover('t_day')
    h.prove('weighted point between mean and maximum', eq(r.at(i), fm.t_day(a.at(i), b.at(i), k)))
    c.assume(land(k >= 0, k <= 1))
    h.prove('not below the mean', cmp('>=', strip(r.at(i)), div(add(a.at(i), b.at(i)), 2)))
    h.prove('not above the maximum', cmp('<=', strip(r.at(i)), b.at(i)))
    h.prove('inputs unchanged', conj([eq(a.at(i), o[0]), eq(b.at(i), o[1])]))


def tfmax(h):
    c = h.c
    n = setup(h)
    d, s, p = h.arr(n, 'dtr'), h.arr(n, 'smoothed'), h.arr(n, 'prec')
    th, sc = c.real('sw_prec_thresh'), c.real('rain_scalar')
    c.assume(land(th >= 0, land(sc >= 0, sc <= 1)))
    for a in (d, s, p):
        forall(h, a, lambda i, x: cmp('>=', x, 0))
    d0, s0, p0 = d.at, s.at, p.at
    i = h.idx(n)
    olds = [d.at(i), s.at(i), p.at(i)]
    r = h.call(h.fn('methods.mtclim', 'tfmax'), d, s, p, h.dict(sw_prec_thresh=th, rain_scalar=sc))
    h.prove('one value per day', eq(r.shape[0], n))
    c.cover('tfmax')
    v = r.at(i)
    h.prove('equals 1 - 0.9 exp(-B dtr^1.5), times the rain scalar exactly on wet days', eq(v, fm.tfmax(olds[0], olds[1], olds[2], th, sc)))
    h.prove('at least 0', cmp('>=', strip(v), 0))
    h.prove('at most 1', cmp('<=', strip(v), 1))
    h.prove('inputs unchanged', conj([eq(a.at(i), o) for a, o in zip((d, s, p), olds)]))


def tskc(opt):
    def u(h):
        c = h.c
        n = setup(h)
        t = h.arr(n, 'tfmax')
        between(h, t, 0, 1)
        i = h.idx(n)
        t0 = t.at(i)
        r = h.call(h.fn('methods.mtclim', 'tskc'), t, h.dict(lw_cloud=opt))
        h.prove('one value per day', eq(r.shape[0], n))
        c.cover('tskc ' + opt)
        h.prove('one minus transmittance, or its scaled root', eq(r.at(i), fm.tskc(t0, opt.lower() == 'cloud_deardorff')))
        h.prove('not negative', cmp('>=', strip(r.at(i)), 0))
        h.prove('input unchanged', eq(t.at(i), t0))
    return u


def shortwave(h):
    c = h.c
    n = setup(h)
    tf, vp, tt, po = (h.arr(n, x) for x in ('tfmax', 'vapor_pressure', 'tt_max', 'potrad'))
    for a in (tf, vp, tt, po):
        forall(h, a, lambda i, x: cmp('>=', x, 0))
    i = h.idx(n)
    o = [a.at(i) for a in (tf, vp, tt, po)]
    r = h.call(h.fn('methods.mtclim', 'shortwave'), tf, vp, tt, po)
    h.prove('one value per day', eq(r.shape[0], n))
    c.cover('shortwave')
    h.prove('potential radiation x max(transmittance - 6.1e-5 vp, 1e-4) x cloudy transmittance', eq(r.at(i), fm.shortwave(*o)))
    h.prove('not negative', cmp('>=', strip(r.at(i)), 0))
    h.prove('inputs unchanged', conj([eq(a.at(i), x) for a, x in zip((tf, vp, tt, po), o)]))


def svp_pos(t):
    """precondition range of temperatures"""
    return land(cmp('>', t, -100), cmp('<', t, 60))


def pet(h):
    c = h.c
    n = setup(h)
    sw, td, dl = (h.arr(n, x) for x in ('shortwave', 't_day', 'daylength'))
    el, lr = c.real('elev'), c.real('lapse_rate')
    c.assume(land(lr > 0, cmp('<', mul(lr, el), F('288.15'))))
    forall(h, sw, lambda i, x: cmp('>=', x, 0))
    forall(h, dl, lambda i, x: cmp('>=', x, 0))
    forall(h, td, lambda i, x: land(cmp('>', x, -90), cmp('<', x, 59)))
    i = h.idx(n)
    o = [a.at(i) for a in (sw, td, dl)]
    svp_increasing(h, sub(o[1], F('0.2')), add(o[1], F('0.2')))
    r = h.call(h.fn('methods.mtclim', 'pet'), sw, td, dl, h.dict(elev=el, lapse_rate=lr))
    h.prove('one value per day', eq(r.shape[0], n))
    c.cover('pet')
    h.prove('Priestley-Taylor/Kimball expression in mm/day', eq(r.at(i), fm.pet(o[0], o[1], o[2], el, lr)))
    h.prove('inputs unchanged', conj([eq(a.at(i), x) for a, x in zip((sw, td, dl), o)]))
    s, g, lh = fm.pet_parts(o[1], el, lr)
    h.lemma('latent heat positive', cmp('>', lh, 0))
    h.lemma('pressure positive', cmp('>', fm.atm_pres(el, lr), 0))
    h.lemma('psychrometer parameter positive', cmp('>', g, 0))
    h.lemma('slope positive', cmp('>', s, 0))
    h.prove('non-negative', cmp('>=', fm.pet(o[0], o[1], o[2], el, lr), 0))


def svp_increasing(h, a, b):
    """contract of svp used at the two slope temperatures (proved in C04): strictly increasing on -100..60"""
    h.c.assume(implies(conj([svp_pos(a), svp_pos(b), cmp('<', a, b)]), cmp('<', fm.svp(a), fm.svp(b))))


def tdew(h):
    c = h.c
    n = setup(h)
    pe, tm, sp, dt = (h.arr(n, x) for x in ('pet', 't_min', 'seasonal_prec', 'dtr'))
    forall(h, sp, lambda i, x: cmp('>=', x, 0))
    i = h.idx(n)
    o = [a.at(i) for a in (pe, tm, sp, dt)]
    r = h.call(h.fn('methods.mtclim', 'tdew'), pe, tm, sp, dt)
    h.prove('one value per day', eq(r.shape[0], n))
    c.cover('tdew')
    h.prove('Kimball expression with annual precipitation floored at 80', eq(r.at(i), fm.tdew(*o)))
    h.prove('temperature inputs unchanged', conj([eq(a.at(i), x) for a, x in zip((pe, tm, dt), (o[0], o[1], o[3]))]))


def vp(h):
    c = h.c
    n = setup(h)
    t = h.arr(n, 'tdew')
    forall(h, t, lambda i, x: svp_pos(x))
    i = h.idx(n)
    t0 = t.at(i)
    r = h.call(h.fn('methods.mtclim', 'vapor_pressure'), t)
    h.prove('one value per day', eq(r.shape[0], n))
    h.prove('saturation vapor pressure at the dewpoint', eq(r.at(i), fm.svp(t0)))


def atm(h):
    c = h.c
    el, lr = c.real('elev'), c.real('lapse_rate')
    c.assume(land(lr > 0, cmp('<', mul(lr, el), F('288.15'))))
    r = h.call(h.fn('physics', 'atm_pres'), el, lr)
    h.prove('standard-atmosphere power law', eq(r, fm.atm_pres(el, lr)))
    h.prove('positive', cmp('>', strip(r), 0))


def units(tier):
    return [('C09.t_day', t_day), ('C09.tfmax', tfmax), ('C09.shortwave', shortwave), ('C09.pet', pet), 
            ('C09.tdew', tdew), ('C09.vapor_pressure', vp), ('C09.atm_pres', atm)] + \
        [('C09.tskc.' + o, tskc(o)) for o in ('default', 'DEFAULT', 'cloud_deardorff', 'CLOUD_DEARDORFF', 'Cloud_Deardorff')]
