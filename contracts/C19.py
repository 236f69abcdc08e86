"""INI and YAML configurations mean the same and map names faithfully."""
import ast
import json as _json
import os.path as _p
import itertools
from .common import *
from pyvc.core import Unsupported, PyRaise, PathAbort
from pyvc.interp import Builtin, VList, VDict, SymSeq, Poison, assigned_names, BreakEx, ContinueEx, Cls
from . import model_contracts as mc
from .C12 import DEFAULT

ASSUMPTIONS = ['configparser: sections and entries of the file in order, values as text, names folded to lower case unless optionxform is replaced by str',
               'yaml.safe_load: the nested mapping written in the file, numbers and booleans typed, padded ISO dates as date objects',
               'names, numbers and texts of a configuration are arbitrary (one opaque text each), differing from each other and from the keywords the readers know',
               'number of entries per section by enumeration']


class Names:
    """arbitrary texts"""
    def __init__(self, h):
        self.h, self.k = h, 0

    def __call__(self):
        ch = chr(0xF400 + self.k)
        self.k += 1
        return ch


class Date:
    """a date object of the yaml reader"""
    def __init__(self, text):
        self.text = text

    def vformat(self, it, spec):
        return self.text


class File:
    """the text of a configuration: any number of comment and blank lines, then its first line"""
    SKIP = ['# \uf4f0\n', '  # \uf4f0 [MetSim]\n', '\n', '   \t\n', '#\n', '# MetSim:\n']

    def __init__(self, h, first, path):
        self.h, self.first, self.path = h, first, path
        self.mode = 'first'

    def venter(self, it):
        return self

    def vexit(self, it):
        pass

    def line(self):
        c = core.vc()
        if self.mode == 'skip':
            self.mode = 'done'
            return self.pick()
        if self.mode == 'first':
            self.mode = 'done'
            return self.first
        raise Unsupported('lines after the first one')

    def pick(self):
        c = core.vc()
        for s in self.SKIP[:-1]:
            if c.branch(c.bool('line is %r' % s)):
                return s
        return self.SKIP[-1]

    def vattr(self, it, n):
        if n == 'readline':
            return Builtin(lambda *a: self.line())
        if n == 'close':
            return Builtin(lambda: None)
        raise Unsupported('file method ' + n)

    def vseq(self, it):
        r = SymSeq(core.vc().int('lines'), lambda k: self.first)
        r.rule = self.vloop
        return r

    def vloop(self, it, s, env, seq):
        """invariant: nothing but the line read last matters while comment and blank lines are read"""
        c = core.vc()
        names = assigned_names(s.body)
        pre = dict(env.vars)
        no = lambda why: Unsupported('supplied loop invariant does not fit: ' + why)
        if seq is not None:
            # for line in f: a skipped line must leave the loop running and the state as it was
            def run(line):
                it.assign(s.target, line, env)
                try:
                    it.block(s.body, env)
                    return 'next'
                except ContinueEx:
                    return 'next'
                except BreakEx:
                    return 'break'
            if c.branch(c.bool('a line to be skipped')):
                end = run(self.pick())
                for nm in names:
                    a, b = pre.get(nm), env.vars.get(nm)
                    if nm in pre and not mc.same_value(a, b):
                        raise no('state kept in ' + nm)
                self.h.prove('comment and blank lines are passed over', BT(end == 'next'), kind='invariant')
                raise PathAbort()
            env.vars.clear()
            env.vars.update(pre)
            if run(self.first) != 'break':
                raise no('read on after the first line')
            return
        test = lambda: it.truth_term(it.eval(s.test, env))
        # which variable holds the line?
        self.mode = 'first'
        if test() is not True:
            raise no('not entered')
        it.block(s.body, env)
        held = [nm for nm in names if isinstance(env.vars.get(nm), str) and env.vars[nm] == self.first]
        if set(names) != set(held) or len(held) != 1:
            raise no('state besides the line')
        nm = held[0]
        after = dict(env.vars)
        if c.branch(c.bool('a line to be skipped')):
            line = self.pick()
            env.vars.clear()
            env.vars.update(pre)
            env.vars[nm] = line
            t = test()
            self.h.prove('comment and blank lines are passed over', BT(t) if not isinstance(t, bool) else BT(t is True), kind='invariant')
            if t is not True:
                raise PathAbort()
            # the next line is read next
            self.mode = 'first'
            it.block(s.body, env)
            self.h.prove('each line is looked at', BT(env.vars.get(nm) == self.first), kind='invariant')
            raise PathAbort()
        env.vars.clear()
        env.vars.update(after)
        t = test()
        if t is not False:
            self.h.prove('the first line of content ends the search', BT(False))
            raise PathAbort()


FIRST = {'ini': ['[MetSim]\n', '[MetSim]   # main\n', '  [MetSim]\n', '[MetSim]', '[MetSim]#\uf4f0\n'],
         'yaml': ['MetSim:\n', 'MetSim:   # main\n', 'MetSim: \n', 'MetSim:']}


def kind(k, first):
    def u(h):
        mc.surroundings(h)
        f = File(h, first, '/c')

        def open_(name, *a, **kw):
            h.prove('the file asked for is read', BT(name == '/c'))
            return f
        h.it.builtins['open'] = Builtin(open_)
        r = h.call(h.fn('io', 'check_config_type'), '/c')
        h.prove('read as ' + k, BT(r == k))
    return u


# ------------------------------------------------------------------- contents
def content(h, fmt, nf=3, outs=('temp', 'prec'), form='dict', units=(), noname=(), bools=None, opt=(), const=0, chunks=2, dates='text', directory=False):
    """one configuration, as a reader of either format is to understand it"""
    N = Names(h)
    c = dict(fmt=fmt, form=form)
    metsim = ['t_max', 'prec', 't_min', 'wind', 'shortwave', 'vapor_pressure'][:nf]
    if fmt == 'binary':
        c['forcing_vars'] = {v: N() + ' ' + ('signed' if i % 2 else 'unsigned') for i, v in enumerate(metsim)}
    else:
        c['forcing_vars'] = {v: N() for v in metsim}
    c['domain_vars'] = {v: N() for v in ('lat', 'lon', 'mask', 'elev')}
    c['state_vars'] = {v: N() for v in ('prec', 't_max', 't_min')}
    c['out'] = {v: (N() if form == 'dict' and v not in noname else v) for v in outs}
    c['noname'] = noname
    c['units'] = {v: N() for v in units}
    c['chunks'] = {N(): N() for _ in range(chunks)}
    c['plain'] = {'time_step': N(), 'domain': N(), 'state': N(), 'out_dir': '/out/' + N(), 'method': N(), N(): N()}
    c['start'], c['stop'] = N(), N()
    c['opt'] = {k: N() for k in opt}
    c['bools'] = dict(bools or {})
    c['const'] = {N(): N() for _ in range(const)}
    c['dates'] = dates
    c['dir'] = [N() for _ in range(3)] if directory else None
    c['forcing'] = '/in/' + N()
    return c


def as_ini(c, spell):
    m = dict(c['plain'])
    m.update(c['opt'])
    m.update(forcing=c['forcing'], forcing_fmt=c['fmt'], start=c['start'], stop=c['stop'])
    for k, v in c['bools'].items():
        m[k] = spell[v]
    if c['form'] == 'list':
        m['out_vars'] = str(list(c['out']))
    s = {'MetSim': m, 'forcing_vars': c['forcing_vars'], 'domain_vars': c['domain_vars'], 'state_vars': c['state_vars'], 'chunks': c['chunks']}
    if c['form'] == 'dict':
        s['out_vars'] = c['out']
    if c['const']:
        s['constant_vars'] = c['const']
    return s


def as_yaml(c):
    m = dict(c['plain'])
    m.update(c['opt'])
    m.update(forcing=c['forcing'], forcing_fmt=c['fmt'], start=Date(c['start']) if c['dates'] == 'date' else c['start'], stop=Date(c['stop']) if c['dates'] == 'date' else c['stop'])
    m.update(c['bools'])
    out = {}
    for v, o in c['out'].items():
        out[v] = {} if v in c['noname'] else {'out_name': o}
        if v in c['units']:
            out[v]['units'] = c['units'][v]
    s = {'MetSim': m, 'forcing_vars': c['forcing_vars'], 'domain_vars': c['domain_vars'], 'state_vars': c['state_vars'], 'chunks': c['chunks'], 'out_vars': out}
    if c['const']:
        s['constant_vars'] = c['const']
    return s


class Section:
    def __init__(self, d):
        self.d = d

    def vkeys(self, it):
        return list(self.d)

    def vseq(self, it):
        return list(self.d)

    def vlen(self):
        return len(self.d)

    def vcontains(self, it, k):
        return k in self.d

    def vgetitem(self, it, k):
        if k not in self.d:
            raise PyRaise(KeyError, (k,))
        return self.d[k]

    def vattr(self, it, n):
        if n == 'items':
            return Builtin(lambda: VList(self.d.items()))
        if n == 'keys':
            return Builtin(lambda: VList(self.d))
        if n == 'values':
            return Builtin(lambda: VList(self.d.values()))
        if n == 'get':
            return Builtin(lambda k, d=None, fallback=None: self.d.get(k, d if d is not None else fallback))
        if n == 'getboolean':
            def gb(k, fallback=None):
                if k not in self.d:
                    return fallback
                t = self.d[k].strip().lower()
                if t in ('1', 'yes', 'true', 'on'):
                    return True
                if t in ('0', 'no', 'false', 'off'):
                    return False
                raise PyRaise(ValueError, ('Not a boolean',))
            return Builtin(gb)
        raise Unsupported('section.' + n)


class Parser:
    def __init__(self, files, it):
        self.files, self.it = files, it
        self.fold = True
        self.data = {}

    def vsetattr(self, it, n, v):
        if n == 'optionxform':
            if v is it.builtins['str']:
                self.fold = False
                return
            raise Unsupported('optionxform')
        raise Unsupported('ConfigParser.' + n)

    def vattr(self, it, n):
        if n in ('read', 'read_file'):
            def read(f, *a, **k):
                f = f.path if isinstance(f, Text) else f
                if f not in self.files:
                    return VList()
                for s, d in self.files[f]['ini'].items():
                    fold = (lambda k: k.lower() if not any('\ue000' <= ch <= '\uf8ff' for ch in k) else 'lower(%s)' % k) if self.fold else (lambda k: k)
                    self.data.setdefault(s, {}).update({fold(k): v for k, v in d.items()})
                return VList([f])
            return Builtin(read)
        if n == 'sections':
            return Builtin(lambda: VList(self.data))
        if n == 'has_section':
            return Builtin(lambda s: s in self.data)
        if n == 'items':
            return Builtin(lambda s=None: VList(self.data[s].items()) if s is not None else VList((k, Section(v)) for k, v in self.data.items()))
        if n == 'has_option':
            return Builtin(lambda s, o: s in self.data and o in self.data[s])
        if n == 'get':
            return Builtin(lambda s, o, fallback=None: self.data.get(s, {}).get(o, fallback))
        raise Unsupported('ConfigParser.' + n)

    def vcontains(self, it, k):
        return k in self.data

    def vgetitem(self, it, k):
        if k not in self.data:
            raise PyRaise(KeyError, (k,))
        return Section(self.data[k])


class Text:
    def __init__(self, path, files):
        self.path, self.files = path, files

    def venter(self, it):
        return self

    def vexit(self, it):
        pass


def tree(x):
    if isinstance(x, dict):
        return VDict((k, tree(v)) for k, v in x.items())
    if isinstance(x, list):
        return VList(tree(v) for v in x)
    return x


class Opts:
    def __init__(self, **k):
        self.k = k

    def vattr(self, it, n):
        if n in self.k:
            return self.k[n]
        raise PyRaise(AttributeError, (n,))


def machine(h, files, dirs):
    mc.surroundings(h)
    M = h.it.modeled
    path = mc.module('os.path', abspath=mc.strings('abspath', lambda a: a if a.startswith('/') else '/cwd/' + a), join=mc.strings('join', _p.join),
                     basename=mc.strings('basename', _p.basename), dirname=mc.strings('dirname', _p.dirname),
                     isdir=Builtin(lambda p: p in dirs), isfile=Builtin(lambda p: p not in dirs))
    M['os'] = mc.module('os', path=path, walk=Builtin(lambda p: VList([(p, VList(), VList(dirs[p]))] if p in dirs else [])),
                        listdir=Builtin(lambda p: VList(dirs[p])))
    M['os.path'] = path
    M['configparser'] = mc.module('configparser', ConfigParser=Builtin(lambda *a, **k: Parser(files, h.it)))

    def load(f, *a, **k):
        if not isinstance(f, Text):
            raise Unsupported('yaml.load')
        return tree(files[f.path]['yaml'])
    M['yaml'] = mc.module('yaml', load=Builtin(load), safe_load=Builtin(load))

    def loads(s):
        try:
            return tree(_json.loads(s))
        except ValueError:
            raise PyRaise(ValueError, ('json',))
    M['json'] = mc.module('json', loads=Builtin(loads))
    h.it.builtins['open'] = Builtin(lambda p, *a, **k: Text(p, files))
    h.it.contracts['metsim.io.check_config_type'] = lambda it, fn, v: files[v['config_file']]['type']


def meaning(h, c, kind_, r, opts, who):
    """a configuration as read is the content"""
    if not isinstance(r, dict):
        raise Unsupported('what a reader returns')
    inv = lambda m: {v: k for k, v in m.items()}
    P = lambda name, ok: h.prove('%s: %s' % (who, name), BT(bool(ok)))
    for s in ('forcing_vars', 'domain_vars', 'state_vars'):
        w = c[s] if s == 'forcing_vars' and c['fmt'] == 'binary' else inv(c[s])
        P('%s name by name, in order' % s, isinstance(r.get(s), dict) and mc.same_value(r[s], w) and list(r[s]) == list(w))
    for k in ('utc_offset', 'period_ending'):
        w = c['bools'].get(k, False)
        P('%s is %s' % (k, w), r.get(k, False) is w)
    ov = r.get('out_vars')
    P('the outputs asked for', isinstance(ov, dict) and set(ov) == set(c['out']))
    for v, o in c['out'].items():
        w = {'out_name': o, 'units': c['units'].get(v, DEFAULT[v]) if kind_ == 'yaml' else DEFAULT[v]}
        P('output %s under its name and unit' % v, isinstance(ov, dict) and v in ov and mc.same_value(ov[v], w))
    P('chunks', mc.same_value(r.get('chunks'), c['chunks']))
    P('constants', mc.same_value(r.get('constant_vars', VDict()), c['const']))
    for k, v in c['plain'].items():
        P('%s' % (k if k.isascii() else 'any other setting'), mc.same_value(r.get(k), v))
    for k, v in c['opt'].items():
        P('%s as given' % k, mc.same_value(r.get(k), v))
    for k in ('start', 'stop'):
        P(k, r.get(k) == c[k])
    if 'calendar' not in c['opt']:
        P('standard calendar by default', r.get('calendar') == 'standard')
    if 'prec_type' not in c['opt']:
        P('uniform precipitation by default', r.get('prec_type', 'uniform') == 'uniform')
    P('format of the forcing', r.get('forcing_fmt') == c['fmt'])
    w = ['%s/%s' % (c['forcing'], f) for f in c['dir']] if c['dir'] else c['forcing']
    P('forcing', mc.same_value(r.get('forcing'), w))
    P('command line options', r.get('scheduler') == opts.k['scheduler'] and mc.same_value(r.get('num_workers'), opts.k['num_workers'])
      and r.get('verbose') == (10 if opts.k['verbose'] else 20))
    P('nothing else', set(r) <= set(c['plain']) | set(c['opt']) | {'forcing', 'forcing_fmt', 'start', 'stop', 'forcing_vars', 'domain_vars', 'state_vars', 'chunks', 'constant_vars',
                                                                  'out_vars', 'utc_offset', 'period_ending', 'calendar', 'prec_type', 'scheduler', 'num_workers', 'verbose'})


SPELL = [{True: 'True', False: 'False'}, {True: 'true', False: 'false'}, {True: ' TRUE ', False: 'no'}]


def read(seq, spell=0):
    """a sequence of files read in one process, each judged at once and again after all others"""
    def u(h):
        files, dirs, cs = {}, {}, []
        mc.surroundings(h)
        for i, (kinds, kw) in enumerate(seq):
            c = content(h, **kw) if not cs or kw is not seq[i - 1][1] else cs[-1][0]
            for k in kinds:
                p = '/conf/%d.%s' % (i, k)
                files[p] = {'type': k, 'ini': as_ini(c, SPELL[spell]), 'yaml': as_yaml(c)}
                cs.append((c, k, p))
            if c['dir']:
                dirs[c['forcing']] = c['dir']
        machine(h, files, dirs)
        mm = h.it.load('metsim.metsim')
        table = mc.snapshot(mm.ns['available_outputs'])
        done = []
        f = h.fn('io', 'read_config')
        for verbose, (c, k, p) in enumerate(cs):
            o = Opts(config=p, scheduler='threading', num_workers=h.c.int('workers'), verbose=bool(verbose % 2))
            r = h.call(f, o)
            meaning(h, c, k, r, o, k)
            h.prove('%s: the table of outputs is unchanged' % k, BT(mc.same_value(mc.snapshot(mm.ns['available_outputs']), table)))
            done.append((c, k, o, r))
        for c, k, o, r in done:
            meaning(h, c, k, r, o, k + ' after the others')
        # what a caller does to its configuration stays its own
        for c, k, o, r in done:
            for v in r['out_vars'].values():
                if isinstance(v, dict):
                    v['out_name'], v['units'] = 'spoiled', 'spoiled'
            for s in ('forcing_vars', 'domain_vars', 'state_vars', 'chunks'):
                if isinstance(r.get(s), dict):
                    r[s]['spoiled'] = 'spoiled'
        h.prove('the table of outputs is nobody\'s own', BT(mc.same_value(mc.snapshot(mm.ns['available_outputs']), table)))
        for c, k, o, r in done:
            meaning(h, c, k, h.call(f, o), o, k + ' read again')
    return u


def units(tier):
    out = []
    for k, fs in FIRST.items():
        for i, f in enumerate(fs):
            out.append(('C19.type.%s.%d' % (k, i), kind(k, f)))
    both = ('ini', 'yaml')
    n = 0

    def add_(name, seq, **k):
        out.append(('C19.read.' + name, read(seq, **k)))
    for fmt in ('netcdf', 'ascii', 'binary', 'data'):
        for nf in (3, 4, 6):
            add_('%s.%d' % (fmt, nf), [(both, dict(fmt=fmt, nf=nf))])
        add_('%s.again' % fmt, [(both, dict(fmt=fmt)), (both[::-1], dict(fmt='binary' if fmt != 'binary' else 'netcdf', outs=('temp', 'wind', 'pet')))])
    for sp in range(3):
        for b in ({}, {'utc_offset': True}, {'utc_offset': False, 'period_ending': True}, {'utc_offset': True, 'period_ending': True}, {'period_ending': False}):
            add_('bools.%d.%s' % (sp, '-'.join('%s_%s' % x for x in b.items()) or 'none'), [(both, dict(fmt='netcdf', bools=b))], spell=sp)
    every = tuple(DEFAULT)
    for form in ('dict', 'list'):
        for outs in [(v,) for v in every] + [every, ('temp', 'prec', 'shortwave')]:
            add_('outputs.%s.%s' % (form, outs[0] if len(outs) == 1 else len(outs)), [(both, dict(fmt='netcdf', form=form, outs=outs))])
    for un in (('temp',), ('prec', 'temp'), every):
        add_('units.%d' % len(un), [(('yaml',), dict(fmt='netcdf', outs=every, units=un)), (both, dict(fmt='ascii', outs=every))])
    for nn in (('temp',), ('temp', 'prec')):
        add_('noname.%d' % len(nn), [(('yaml',), dict(fmt='netcdf', outs=('temp', 'prec', 'wind'), noname=nn, units=('wind', 'temp')))])
    for o in ([()] + [(k,) for k in ('prec_type', 'calendar', 'lw_type', 'lw_cloud', 'out_prefix', 'sw_prec_thresh', 'tday_coef', 'out_freq', 'out_precision')] + [('prec_type', 'calendar', 'out_freq')]):
        add_('option.%s' % ('-'.join(o) or 'none'), [(both, dict(fmt='netcdf', opt=o))])
    for k in (0, 1, 2):
        add_('const.%d' % k, [(both, dict(fmt='ascii', const=k))])
        add_('chunks.%d' % k, [(both, dict(fmt='netcdf', chunks=k))])
    add_('date_objects', [(both, dict(fmt='netcdf', dates='date'))])
    for fmt in ('binary', 'ascii', 'netcdf'):
        add_('directory.' + fmt, [(both, dict(fmt=fmt, directory=True))])
    return out
