"""The daily estimate functions by their contracts (each proved against its equation in C09).

A call yields, element by element, a function symbol of its arguments; the symbol is defined by the C09
equation, so that code which spells an estimate out in place is judged by what it computes.
"""
from .common import *
from . import formulas as fm
from pyvc.core import Unsupported

P = 'metsim.methods.mtclim.'
FNS = {'t_day': 2, 'tfmax': 3, 'tskc': 1, 'pet': 3, 'tdew': 4, 'vapor_pressure': 1, 'shortwave': 4}


class Estimates:
    def __init__(self, h, n, p):
        """p: values of the parameters in effect"""
        c = h.c
        self.h, self.n, self.p = h, n, p
        self.log = []
        R = z3.RealSort()
        sym = {k: z3.Function('est_' + k, *([R] * (a + 1))) for k, a in FNS.items()}
        dear = p['lw_cloud'].upper() == 'CLOUD_DEARDORFF'
        eqn = {'t_day': lambda a, b: fm.t_day(a, b, p['tday_coef']),
               'tfmax': lambda a, b, d: fm.tfmax(a, b, d, p['sw_prec_thresh'], p['rain_scalar']),
               'tskc': lambda a: fm.tskc(a, dear),
               'pet': lambda a, b, d: fm.pet(a, b, d, p['elev'], p['lapse_rate']),
               'tdew': fm.tdew, 'vapor_pressure': fm.svp, 'shortwave': fm.shortwave}
        self.eqn = eqn

        def mk(k):
            def f(*a):
                xs = [toreal(strip(x)) for x in a]
                if k == 'tdew':
                    xs[2] = toreal(maximum(xs[2], 80))
                return S(sym[k](*[T(x) for x in xs]))
            return f
        self.f = {k: mk(k) for k in FNS}

        def num(x, who):
            try:
                a = models.to_arr(h.it, x)
            except Exception:
                raise Unsupported('argument of ' + who)
            return a

        def install(k, names, pkeys):
            def g(it, fn, v):
                if set(names) - set(v) or set(v) - set(names) - {'params'}:
                    raise Unsupported('%s has other arguments' % k)
                args = [num(v[q], k) for q in names]
                if not all(a.ndim == 1 for a in args):
                    raise Unsupported('%s on other than daily series' % k)
                for q, a in zip(names, args):
                    if not arrays.dim_eq(a.shape[0], n):
                        h.prove('%s: one %s per day' % (k, q), eq(a.shape[0], n), kind='pre')
                q = h.idx(n, 'q')
                h.prove('%s: arguments present' % k, conj([finite(a.at(q)) for a in args]), kind='pre')
                for key in pkeys:
                    pp = v.get('params')
                    if not isinstance(pp, interp.VDict) or key not in pp:
                        raise Unsupported('params of ' + k)
                    if isinstance(p[key], str):
                        h.prove('%s sees %s as configured' % (k, key), BT(isinstance(pp[key], str) and pp[key].upper() == p[key].upper()), kind='pre')
                    else:
                        h.prove('%s sees %s as configured' % (k, key), eq(pp[key], p[key]), kind='pre')
                rd = [a.reader() for a in args]
                f = self.f[k]
                out = Arr.new((n,), lambda i: f(*[r(i) for r in rd]), 'f')
                self.log.append((k, rd, out))
                if k == 'tdew':
                    # its frame condition: annual precipitation is floored in place
                    s = args[2]
                    old = s.reader()
                    if isinstance(v['seasonal_prec'], Arr):
                        it.setitem(s, slice(None), Arr.new((n,), lambda i: maximum(strip(old(i)), 80), 'f'))
                return out
            h.it.contracts[P + k] = g
        install('t_day', ['t_min', 't_max'], ['tday_coef'])
        install('tfmax', ['dtr', 'sm_dtr', 'prec'], ['sw_prec_thresh', 'rain_scalar'])
        install('tskc', ['tfmax'], ['lw_cloud'])
        install('pet', ['shortwave', 't_day', 'daylength'], ['elev', 'lapse_rate'])
        install('tdew', ['pet', 't_min', 'seasonal_prec', 'dtr'], [])
        install('vapor_pressure', ['tdew'], [])
        install('shortwave', ['tfmax', 'vapor_pressure', 'tt_max', 'potrad'], [])


COLS = ['t_min', 't_max', 'prec', 'dtr', 'smoothed_dtr', 'seasonal_prec', 'daylength', 'potrad', 'tt_max']


def world(h, extra=(), **over):
    c = h.c
    n = c.int('n_days')
    c.assume(n >= 1)
    cols = COLS + list(extra)
    D = {k: h.arr(n, 'd_' + k) for k in cols}
    df = models.DataFrame({k: a.copy() for k, a in D.items()}, day_index(h, n))
    p = {k: c.real(k) for k in ('tday_coef', 'sw_prec_thresh', 'rain_scalar', 'elev', 'lapse_rate', 'tdew_tol')}
    c.assume(cmp('>', p['tdew_tol'], 0))
    p['lw_cloud'] = 'cloud_deardorff'
    p.update(over)
    E = Estimates(h, n, p)
    return n, D, df, h.dict(**p), E
