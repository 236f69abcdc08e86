"""rt/run.py Cxx --seed S --tier T --budget SEC --out FILE [--procs N] | --replay FILE

Runs the bounded checks of one property against the real code and writes a JSON report."""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ.setdefault(k, '1')


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run_case(common, mod, case, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        return common.verdict(mod.check, case)
    except CaseTimeout:
        return ('na', 'case took longer than %d s' % limit)
    finally:
        signal.alarm(0)


class Both(object):
    """the cases of a property's module, and a few whole runs judged by the same property"""
    def __init__(self, prop, mod, whole):
        self.__dict__.update({k: v for k, v in vars(mod).items() if not k.startswith('__')})
        self.FIXED = list(getattr(mod, 'FIXED', [])) + whole.fixed(prop)
        self.RULE = getattr(mod, 'RULE', '') + whole.RULE
        self.check = lambda c: whole.check(prop, c) if c.get('whole_run') else mod.check(c)
        self.prop, self.mod, self.whole = prop, mod, whole

    def cases(self, rng, tier):
        for i, c in enumerate(self.mod.cases(rng, tier)):
            yield c
            if i % 20 == 7:
                yield self.whole.case(rng, self.prop)


def load(prop):
    mod = importlib.import_module('rt.' + prop)
    whole = importlib.import_module('rt.whole')
    return Both(prop, mod, whole) if prop in whole.PROPS else mod


def worker(w, procs, args, q, stop):
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    sys.stdout = open(os.devnull, 'w')
    from rt import common
    d = tempfile.mkdtemp(prefix='w%d_' % w, dir=os.getcwd())
    os.chdir(d)
    mod = load(args.prop)
    rng = random.Random(args.seed * 7919 + w)
    t_end = time.time() + args.budget
    fixed = list(getattr(mod, 'FIXED', []))[w::procs]
    hints = json.loads(args.hints) if args.hints else []
    gen = mod.cases(rng, args.tier)
    quota = getattr(mod, 'QUICK' if args.tier == 'quick' else 'THOROUGH', 200 if args.tier == 'quick' else 20000)
    if hints:
        quota *= 4
    quota = max(1, quota // procs)
    n = 0
    res = {'n': 0, 'ok': 0, 'na': {}, 'fails': [], 'hashes': [], 'samples': [], 'trivial': 0}
    it = iter(fixed)
    rand = 0
    while time.time() < t_end and not stop.is_set():
        case = next(it, None)
        if case is None:
            if rand >= quota:
                break
            case = next(gen, None)
            rand += 1
            if case is None:
                break
        v = run_case(common, mod, case, 240)
        res['n'] += 1
        h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        res['hashes'].append(h)
        if len(res['samples']) < 2:
            res['samples'].append(case)
        for e in os.listdir(d):
            shutil.rmtree(os.path.join(d, e), ignore_errors=True)
        if v is None:
            res['ok'] += 1
        elif v[0] == 'na':
            res['na'][v[1]] = res['na'].get(v[1], 0) + 1
        else:
            f = {'case': case, 'message': v[1], 'key': v[2]}
            if v[2] is None or v[2] not in args.known or not any(x['key'] == v[2] for x in res['fails']):
                res['fails'].append(f)
            if v[2] is None or v[2] not in args.known:
                stop.set()
                break
    q.put(res)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--out')
    ap.add_argument('--procs', type=int, default=4)
    ap.add_argument('--hints')
    ap.add_argument('--known', default='')
    ap.add_argument('--replay')
    args = ap.parse_args()
    args.known = [k for k in args.known.split(',') if k]
    work = tempfile.mkdtemp(prefix='metsim_rt_')
    try:
        os.chdir(work)
        if args.replay:
            with open(args.replay) as f:
                rp = json.load(f)
            from rt import common
            mod = load(rp['property'])
            v = common.verdict(mod.check, rp['case'])
            print('holds' if v is None else v)
            return 1 if v is not None and v[0] == 'fail' else 0
        t0 = time.time()
        from rt import common
        rep = {'property': args.prop, 'seed': args.seed, 'tier': args.tier, 'error': None}
        try:
            mod = load(args.prop)
            warm = getattr(mod, 'warm', None)
            if warm:
                warm()
        except Exception as e:
            rep['error'] = 'warm-up: %r' % e      # not a verdict; the cases below decide
        ctx = mp.get_context('fork')
        q, stop = ctx.Queue(), ctx.Event()
        ps = [ctx.Process(target=worker, args=(w, args.procs, args, q, stop)) for w in range(args.procs)]
        for p in ps:
            p.start()
        out = []
        t_end = time.time() + args.budget + 260
        while len(out) < len(ps) and time.time() < t_end:
            try:
                out.append(q.get(timeout=1))
            except Exception:
                if not any(p.is_alive() for p in ps):
                    try:
                        while True:
                            out.append(q.get(timeout=.5))
                    except Exception:
                        break
        for p in ps:
            if p.is_alive():
                p.terminate()
        rep['lost_workers'] = len(ps) - len(out)
        rep['evaluations'] = sum(r['n'] for r in out)
        rep['ok'] = sum(r['ok'] for r in out)
        hs = [h for r in out for h in r['hashes']]
        rep['distinct'] = len(set(hs))
        rep['samples'] = [s for r in out for s in r['samples']][:4]
        rep['fails'] = [f for r in out for f in r['fails']]
        na = {}
        for r in out:
            for k, v in r['na'].items():
                na[k] = na.get(k, 0) + v
        rep['inapplicable'] = na
        rep['rule'] = getattr(mod, 'RULE', '') if 'mod' in dir() else ''
        rep['wall_s'] = round(time.time() - t0, 2)
        with open(args.out, 'w') as f:
            json.dump(rep, f)
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
