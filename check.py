#!/usr/bin/env python3-vt
"""check.py Cxx [--tier quick|thorough]: decide one property of MetSim on $METSIM_REPO (default /repo).

D layer (deciding): verification conditions are generated from the source of the functions under contract
(pyvc/), one unit per contract case, and discharged by z3 / cvc5 / the structural rules.
B layer (bounded, labelled so): the real code is run against the same specification; it supplies the failing
input for an alarm, and stands in where the verifier cannot follow the code.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get('METSIM_REPO', '/repo')
VENV = '/opt/venv/bin/python'

TRUSTED = ['pyvc (the VC generator in /verif/pyvc: Python subset semantics, models of numpy/pandas/scipy operations)',
           'z3 and cvc5', 'CPython ast module',
           'floating point read as real arithmetic plus NaN/inf flags where tracked; machine integers as mathematical']


def known(prop):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop and k['status'] == 'known']


def start_rt(prop, seed, tier, budget, procs, keys, out, hints=None):
    env = dict(os.environ, METSIM_REPO=REPO, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
               PYTHONWARNINGS='ignore', HDF5_USE_FILE_LOCKING='FALSE')
    cmd = [VENV, os.path.join(VERIF, 'rt', 'run.py'), prop, '--seed', str(seed), '--tier', tier, '--budget', str(budget),
           '--procs', str(procs), '--known', ','.join(keys), '--out', out]
    if hints:
        cmd += ['--hints', json.dumps(hints)]
    return subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=VERIF)


def finish_rt(p, out, limit):
    try:
        err = p.communicate(timeout=limit)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        err = p.communicate()[1]
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {'error': 'no report: ' + err.decode('utf-8', 'replace')[-2000:], 'evaluations': 0, 'distinct': 0,
                'fails': [], 'inapplicable': {}, 'samples': [], 'ok': 0, 'wall_s': 0, 'lost_workers': 1, 'rule': ''}


def lean():
    """the rules for finite sums, by Lean"""
    f = os.path.join(VERIF, 'lean', 'Sums.lean')
    try:
        r = subprocess.run(['lean', f], capture_output=True, text=True, timeout=600)
    except (OSError, subprocess.TimeoutExpired) as e:
        return 'not run: %s' % e
    n = sum(l.startswith('theorem ') for l in open(f))
    return '%d theorems accepted by Lean' % n if r.returncode == 0 else 'rejected by Lean: ' + r.stdout[:500]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-rt', action='store_true')
    ap.add_argument('--no-d', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop, tier = a.prop, a.tier
    t0 = time.time()
    evdir = os.environ.get('METSIM_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    kn = known(prop)
    keys = [k['key'] for k in kn if k.get('key')]
    tmp = tempfile.mkdtemp(prefix='metsim_chk_')
    rt_out = os.path.join(tmp, 'rt.json')
    quick = tier == 'quick'
    has_rt = os.path.exists(os.path.join(VERIF, 'rt', prop + '.py')) and not a.no_rt
    has_d = os.path.exists(os.path.join(VERIF, 'contracts', prop + '.py')) and not a.no_d
    rt_p = start_rt(prop, seed, tier, 150 if quick else 1500, 3 if has_d else 7, keys, rt_out) if has_rt else None
    # ---- D layer
    res, derr, mod, beyond = [], None, None, []
    td = time.time()
    if has_d:
        try:
            from pyvc import unit
            mod = importlib.import_module('contracts.' + prop)
            chain = importlib.import_module('contracts.chain')
            ch = chain.units(prop, tier)
            us = mod.units(tier) + ch
            beyond = [a for a in chain.ASSUMPTIONS if ch and a not in getattr(mod, 'ASSUMPTIONS', [])]
            res = unit.run_units(us, timeout_ms=15000 if quick else 60000, seconds=90 if quick else 600,
                                 procs=6, total=420 if quick else 5400)
        except Exception:
            derr = traceback.format_exc()
    td = time.time() - td
    rt = finish_rt(rt_p, rt_out, 450 if quick else 1900) if rt_p else None
    sums = lean() if has_d and not quick else None
    obl = [(r, o) for r in res for o in r['obligs']]
    refuted = [(r, o) for r, o in obl if o['status'] == 'refuted']
    # an obligation listed as a known finding (by name) is not an alarm
    known_d = [(r, o) for r, o in refuted if any(k.get('obligation') and k['obligation'] in o['name'] for k in kn)]
    refuted = [x for x in refuted if x not in known_d]
    undecided = [(r, o) for r, o in obl if o['status'] not in ('proved', 'refuted')]
    notrun = [r for r in res if r['status'] != 'ok']
    fails = [f for f in (rt or {}).get('fails', []) if f['key'] is None or f['key'] not in keys]
    kfails = [f for f in (rt or {}).get('fails', []) if f['key'] is not None and f['key'] in keys]
    rounds = [rt] if rt else []
    if refuted and has_rt and not fails:
        # the verifier refutes an obligation: search harder for an input that shows it on the real code
        hints = sorted({r['unit'] for r, o in refuted})[:20]
        p = start_rt(prop, seed + 1, tier, 120 if quick else 900, 8, keys, rt_out, hints)
        rt2 = finish_rt(p, rt_out, 400 if quick else 1500)
        rounds.append(rt2)
        fails = [f for f in rt2['fails'] if f['key'] is None or f['key'] not in keys]
    # ---- report
    rc = 0
    lines = []
    for k in kn:
        seen = [f for f in kfails if f['key'] == k['key']] or [1 for r, o in known_d if k.get('obligation')]
        if seen:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if fails or refuted:
        rc = 1
        rp = os.path.join(evdir, '%s.replay.json' % prop)
        rep = {'property': prop, 'repo': REPO,
               'failed_obligations': [{'unit': r['unit'], 'obligation': o['name'], 'kind': o['kind'], 'backend': o['backend'],
                                       'solver_output': o['detail'], 'model': o['model']} for r, o in refuted][:20]}
        if fails:
            rep.update(case=fails[0]['case'], message=fails[0]['message'],
                       replay_cmd='METSIM_REPO=%s PYTHONPATH=%s %s rt/run.py --replay %s' % (REPO, REPO, VENV, rp))
            lines.append('# ' + fails[0]['message'][:300])
            lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            lines.append('# failed obligation: %s / %s' % (refuted[0][0]['unit'], refuted[0][1]['name']))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        with open(rp, 'w') as f:
            json.dump(rep, f, indent=1)
    evals = sum(r['evaluations'] for r in rounds)
    oks = sum(r.get('ok', 0) for r in rounds)
    proved = [(r, o) for r, o in obl if o['status'] == 'proved']
    if rc == 0 and not proved and not oks:
        # nothing was decided at all: an error of the check, never a pass
        rc = 2
    assumed = sorted({x for r in res for x in r['assumed']})
    bk = {}
    for r, o in proved:
        bk[o['backend']] = bk.get(o['backend'], 0) + 1
    bounded = list(getattr(mod, 'BOUNDED', [])) if mod else ['all of it: no contract of this property is within reach']
    level = 'proof' if has_d else 'exploration'
    cov = {
        'obligations': len(obl), 'discharged': len(proved),
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED + ['operation models used: ' + ', '.join(assumed[:60])] if assumed else TRUSTED,
        'units': len(res),
        'units_unsupported': [{'unit': r['unit'], 'why': r['why'][:300]} for r in notrun][:40],
        'undecided': [{'unit': r['unit'], 'obligation': o['name'], 'status': o['status']} for r, o in undecided][:40],
        'undecided_count': len(undecided),
        'refuted': [{'unit': r['unit'], 'obligation': o['name']} for r, o in refuted][:20],
        'functions_under_contract': sorted({f for r in res for f in r['functions']}),
        'backends': bk,
        'solver_queries': sum(r['queries'] for r in res),
        'solver_time_s': round(sum(r['solver_time'] for r in res), 2),
        'obligation_samples': ['%s: %s' % (r['unit'], o['name']) for r, o in proved if o['kind'] == 'post'][:8],
        'bounded_parts': bounded,
        'sum_rules': sums or 'lean/Sums.lean, checked in the thorough tier and by setup_cmd',
        'evaluations': evals,
        'distinct_nontrivial': sum(r.get('distinct', 0) for r in rounds),
        'rule': (rt or {}).get('rule', ''),
        'samples': (rt or {}).get('samples', []),
        'runs_inapplicable': (rt or {}).get('inapplicable', {}),
        'wall_d_s': round(td, 1), 'wall_b_s': sum(r.get('wall_s', 0) for r in rounds),
        'errors': [e for e in [derr] + [r.get('error') for r in rounds] if e],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': (list(getattr(mod, 'ASSUMPTIONS', [])) if mod else []) + beyond,
          'wall_s': round(time.time() - t0, 1), 'violations': len(fails) + len(refuted)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print('%s: %d/%d obligations discharged in %d units (%d units out of reach, %d undecided), %d bounded runs, %.0f s' % (
        prop, len(proved), len(obl), len(res), len(notrun), len(undecided), evals, time.time() - t0))
    if derr:
        print('D layer error (no verdict from it): ' + derr.strip().splitlines()[-1])
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
