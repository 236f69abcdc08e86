"""Output time axis, its split into files, file names and what each file holds."""
from .common import *
from pyvc.core import Unsupported, PyRaise
from pyvc.interp import Builtin, SymSeq, VList, VDict
from . import model_contracts as mc
from . import cell_contracts as cc

STEPS = [1440] + SUB
ASSUMPTIONS = ['calendar "standard": pandas.date_range (other calendars by the bounded replay)',
               'pandas grouping by frequency gives consecutive, possibly empty pieces covering the axis in order; pieces of whole days never split a calendar day',
               'year, month and day of a stamp are functions of its calendar day and determine it',
               'netCDF4 date2num stores whole minutes exactly',
               'xarray .sel(time=slice(a, b)) takes the steps from a to b inclusive; item assignment stores the value at that position']


def grid(h, ts, ending, **p):
    g = mc.Grid(h, ('lat', 'lon'), ts, [('prec', 'out_prec', 'mm timestep-1')], dict(period_ending=ending, out_dir='/out', out_prefix='pre', **p))
    g.k = 1440 // ts
    g.N = mul(g.n, g.k)
    g.off = ts if ending else 0
    return g


def stamp(g, p):
    return add(add(g.index.at(0), mul(g.ts, p)), g.off)


def pieces(h, r):
    """list of time axes as (count, elem)"""
    if isinstance(r, (list, tuple)):
        xs = list(r)
        if len(xs) != 1 or not isinstance(xs[0], models.DTIndex):
            raise Unsupported('list of output times')
        return 1, lambda j: xs[0], None
    if isinstance(r, SymSeq):
        return r.n, r.elem, getattr(r, 'sel_info', None)
    raise Unsupported('output times %s' % type(r).__name__)


def axis(ts, ending, freq=None):
    """one axis: every step once, evenly spaced"""
    def u(h):
        g = grid(h, ts, ending, out_freq=freq)
        h.c.cover('time axis')
        r = h.call(h.it.getattr(g.ms, '_get_output_times'), freq=freq, period_ending=ending)
        n, el, _ = pieces(h, r)
        h.prove('one piece', eq(n, 1))
        t = el(0)
        i = h.idx(g.N)
        h.prove('one stamp per step', eq(t.n, g.N))
        h.prove('step i carries its own stamp', eq(t.at(i), stamp(g, i)))
    return u


def numbers(h, text):
    """text -> layout with the numbers in it taken out"""
    lay, num = '', []
    for ch in text:
        k = ord(ch) - 0xE000
        if 0 <= k < len(h.it.tokens):
            t, sp = h.it.tokens[k]
            lay += '{%s}' % sp
            num.append(t)
        else:
            lay += ch
    return lay, num


DAYS = '{04}{02}{02}-{04}{02}{02}'


def date(t):
    return [models.cal(f, lo, hi, t) for f, lo, hi in ((models.YEAR, 1, 9999), (models.MONTH, 1, 12), (models.DAYOM, 1, 31))]


def day_of_date(c, *ms):
    """year, month and day determine the calendar day (instances)"""
    I = z3.IntSort()
    f = z3.Function('day_of_date', I, I, I, I)
    for m in ms:
        c.axiom(eq(S(f(*[T(x) for x in date(m)])), core.floordiv(m, 1440)))


def name(h, g, times):
    if getattr(h.it, 'tokens', None) is None:
        h.it.tokens = []
    s = h.call(h.it.getattr(g.ms, '_get_output_filename'), times)
    if not isinstance(s, str):
        raise Unsupported('file name')
    lay, num = numbers(h, s)
    return lay, num


def split(ts, ending, freq):
    def u(h):
        c = h.c
        g = grid(h, ts, ending, out_freq=freq)
        c.cover('split axis')
        r = h.call(h.it.getattr(g.ms, '_get_output_times'), freq=freq, period_ending=ending)
        n, el, sel = pieces(h, r)
        gs = getattr(c, 'groupings', [])
        if len(gs) != 1:
            raise Unsupported('axis is not split by one grouping')
        G = gs[0]
        h.prove('the axis split has one stamp per step', eq(G.N, g.N))
        p = h.idx(g.N, 'p')
        h.prove('the axis split is that of the run', eq(G.s.index.at(p), stamp(g, p)))

        def has(j, q, t):
            """piece j holds stamp of position q"""
            d = sub(stamp(g, q), t.at(0))
            return conj([cmp('>=', d, 0), cmp('<', floordiv(d, ts), t.n), eq(core.mod(d, ts), 0), eq(t.step, ts)])
        # every step is in a piece: the one of its own group
        gid = G.of(p)
        c.axiom(G.holds(gid, p))
        for q in (gid, add(gid, 1)):
            c.axiom(G.order(0, q))
        j = sel.rank((gid,)) if sel is not None else gid
        t = el(j)
        h.prove('every step is in a file', land(rng(j, n), has(j, p, t)))
        # in order and once
        a, b = h.idx(n, 'a'), h.idx(n, 'b')
        ta, tb = el(a), el(b)
        ga, gb = ((sel.sel(a)[0], sel.sel(b)[0]) if sel is not None else (a, b))
        h.prove('no file is empty', cmp('>=', ta.n, 1))
        with c.assuming([cmp('<', a, b)]):
            if sel is not None:
                c.axiom(sel.order_fact(a, b))
            c.axiom(implies(cmp('<', ga, gb), G.order(add(ga, 1), gb)))
            h.prove('files are in order and share no step', cmp('<', ta.at(sub(ta.n, 1)), tb.at(0)))
            # names
            la, na = name(h, g, ta)
            lb, nb = name(h, g, tb)
            h.prove('names have one layout', BT(la == lb and len(na) == len(nb)))
            pa, pb = add(G.start(ga), sub(ta.n, 1)), G.start(gb)
            c.axiom(G.day_fact(pa, pb))
            for q in (G.holds(G.of(pa), pa), G.holds(G.of(pb), pb)):
                c.axiom(q)
            # a position lies in one group only
            for q, gg in ((pa, ga), (pb, gb)):
                c.axiom(implies(cmp('<', gg, G.of(q)), G.order(add(gg, 1), G.of(q))))
                c.axiom(implies(cmp('<', G.of(q), gg), G.order(add(G.of(q), 1), gg)))
            day_of_date(c, ta.at(0), ta.at(sub(ta.n, 1)), tb.at(0), tb.at(sub(tb.n, 1)))
            if la == lb and len(na) == len(nb):
                h.prove('two files never share a name', lnot(conj([eq(x, y) for x, y in zip(na, nb)])))
    return u


def named(ts, ending, freq):
    """name of a file holding any piece of the axis"""
    def u(h):
        c = h.c
        g = grid(h, ts, ending, out_freq=freq)
        lo, m = c.int('lo'), c.int('m')
        c.assume((lo >= 0) & (m >= 1))
        t = models.DTIndex(stamp(g, lo), ts, m)
        c.cover('any piece')
        lay, num = name(h, g, t)
        first, last = stamp(g, lo), stamp(g, add(lo, sub(m, 1)))
        want = date(first) + date(last)
        head = '/out/pre_' + DAYS
        h.prove('the name carries two dates (%s)' % lay, BT(lay.startswith(head) and lay.endswith('.nc')))
        if lay.startswith(head):
            for x, y, w in zip(num, want, ['first year', 'first month', 'first day', 'last year', 'last month', 'last day']):
                h.prove('%s in the name' % w, eq(x, y))
    return u


def in_file(ts, ending):
    """setup_netcdf_output stores the stamps it is given, with the units and calendar it labels them with"""
    def u(h):
        g = grid(h, ts, ending)
        lo, m = h.c.int('lo'), h.c.int('m')
        h.c.assume((lo >= 0) & (m >= 1))
        t = models.DTIndex(stamp(g, lo), ts, m)
        f = g.new_file('/out/file.nc', t)
        h.c.cover('new file')
        v = f.vars.get('time')
        if v is None or len(v.writes) != 1:
            raise Unsupported('writes of the time variable')
        k, e = v.writes[0]
        if not isinstance(e, mc.Encoded) or k != slice(None):
            raise Unsupported('encoding of the time variable')
        h.prove('the file holds its own stamps', BT(isinstance(e.times, models.DTIndex) and models.same_index(e.times, t)))
        h.prove('stamps are labelled with the unit they are in', BT(v.attrs.get('units') == e.units and isinstance(e.units, str)))
        h.prove('stamps are labelled with their calendar', BT(v.attrs.get('calendar') == e.calendar == 'standard'))
        h.prove('the unit is minutes', BT(str(e.units).startswith('minutes since ')))
        for n, x in f.vars.items():
            if n in ('lat', 'lon', 'time'):
                continue
            h.prove('%s runs along the time axis of the file' % n, BT(x.dims[:1] == ('time',)))
        h.prove('time is unlimited or as long as the stamps', BT(f.dims.get('time', 0) is None))
    return u


def store(ts, ending, split=True):
    """write_chunk: every file gets the steps of its own stamps"""
    def u(h):
        c = h.c
        h.it.tokens = []
        g = grid(h, ts, ending)
        b = [0, c.int('b1'), g.N] if split else [0, g.N]
        if split:
            c.assume((b[1] >= 1) & (b[1] < g.N))
        full = models.DTIndex(stamp(g, 0), ts, g.N)
        parts = [models.DTIndex(stamp(g, b[i]), ts, sub(b[i + 1], b[i])) for i in range(len(b) - 1)]
        g.files()
        files = {}
        m = h.it.load('metsim.metsim')

        def ds(nm, mode='r', **k):
            f = files.get(nm)
            if f is None:
                f = files[nm] = mc.File(nm, mode)
                for v in g.params['out_vars'].values():
                    f.vars[v['out_name']] = mc.FileVar(f, v['out_name'], ('time', 'lat', 'lon'))
            return f
        m.ns['Dataset'] = Builtin(ds)
        arr = h.arr((g.N, g.size['lat'], g.size['lon']), 'out')
        out = mc.DS('output', {'prec': mc.DA(arr, ('time', 'lat', 'lon'), full, 'prec')}, {'time': g.N}, full)
        r0 = {d: (c.int('c0_' + d), c.int('c1_' + d)) for d in ('lat', 'lon')}
        g.ms.d.update(output=out, _times=VList(parts), _domain_slice=h.dict(**{d: slice(*r0[d]) for d in r0}))
        c.cover('chunk of any size, %d files' % len(parts))
        h.call(h.it.getattr(g.ms, 'write_chunk'), locks=h.dict())
        done = 0
        for i, t in enumerate(parts):
            s = h.call(h.it.getattr(g.ms, '_get_output_filename'), t)
            f = files.get(s)
            h.prove('file %d is written' % i, BT(f is not None))
            if f is None:
                continue
            done += 1
            w = f.vars['out_prec'].writes
            h.prove('file %d is written once' % i, BT(len(w) == 1))
            if len(w) != 1:
                continue
            k, v = w[0]
            if not isinstance(k, tuple) or len(k) != 3:
                raise Unsupported('key of the write')
            h.prove('the whole time axis of file %d is written' % i, BT(k[0] == slice(None)))
            for d, q in zip(('lat', 'lon'), k[1:]):
                h.prove('file %d: the chunk is written at its own %s' % (i, d), conj([eq(x, y) for x, y in zip((q.start, q.stop), r0[d])]) if isinstance(q, slice) and q.step is None and q.start is not None and q.stop is not None else BT(False))
            a = models.to_arr(h.it, v)
            p = h.idx(t.n, 'p')
            x, y = h.idx(g.size['lat'], 'x'), h.idx(g.size['lon'], 'y')
            h.prove('file %d gets one value per stamp' % i, eq(a.shape[0], t.n))
            h.prove('file %d gets the values of its own stamps' % i, eq(a.at(p, x, y), arr.at(add(b[i], p), x, y)))
        h.prove('no other file is touched', BT(len(files) == done))
    return u


def whole(ts, ending):
    """setup_output: the axis of the in-memory result"""
    def u(h):
        g = grid(h, ts, ending)
        h.c.cover('output axis')
        h.call(h.it.getattr(g.ms, 'setup_output'))
        out = g.ms.d.get('output')
        if not isinstance(out, mc.DS) or not isinstance(out.index, models.DTIndex):
            raise Unsupported('output')
        i = h.idx(g.N)
        h.prove('one stamp per step', eq(out.index.n, g.N))
        h.prove('step i carries its own stamp', eq(out.index.at(i), stamp(g, i)))
        h.prove('one row per stamp', eq(out.vars['prec'].arr.shape[0], g.N))
    return u


WHOLE = ['D', 'MS', 'M', 'YS', 'W', '7D', 'QS']
PART = ['6H', '12H', '90T']


def units(tier):
    out = []
    for ts in STEPS:
        for e in (False, True):
            s = 'ts%d.%s' % (ts, 'end' if e else 'begin')
            out.append(('C15.axis.' + s, axis(ts, e)))
            out.append(('C15.output_axis.' + s, whole(ts, e)))
            out.append(('C15.cell_rows.' + s, cc.unit(ts, ('stamps',), ending=e)))
    for ts in (1440, 360, 60, 1):
        for e in (False, True):
            s = 'ts%d.%s' % (ts, 'end' if e else 'begin')
            out.append(('C15.axis.empty_freq.' + s, axis(ts, e, '')))
            for f in WHOLE + PART:
                out.append(('C15.split.%s.%s' % (f, s), split(ts, e, f)))
            for f in [None, '', 'D', 'MS', '6H', '90T']:
                out.append(('C15.name.%s.%s' % (f, s), named(ts, e, f)))
            out.append(('C15.file_times.' + s, in_file(ts, e)))
            out.append(('C15.write.two_files.' + s, store(ts, e)))
            out.append(('C15.write.one_file.' + s, store(ts, e, False)))
    return out
