"""Plant a bug: python3 tools/plant.py SPEC.py

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS (list of file, old, new), DEMO (python text).
Works in a scratch copy of /repo: checks that the demo passes before and fails after the edit and
that the stable tests still pass with it, then writes seeded/ID/.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = runpy.run_path(sys.argv[1])
tmp = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
try:
    repo = os.path.join(tmp, 'repo')
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    d = os.path.join(tmp, 'demo'); os.mkdir(d)
    open(d + '/demo.py', 'w').write(S['DEMO'])
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\n# exit 0 where the property holds, nonzero with the planted change\n'
        'here=$(cd "$(dirname "$0")" && pwd)\nwork=$(mktemp -d) || exit 3\n'
        'trap \'rm -rf "$work"\' EXIT\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" REPO="$PWD" TMPDIR="$work"\n'
        'cd "$work" && timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"\n')

    def demo():
        return subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True, text=True)
    a = demo()
    if a.returncode:
        sys.exit('demo fails on the unchanged tree\n' + a.stdout[-1500:] + a.stderr[-1500:])
    for f, old, new in S['EDITS']:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit('%s: %d matches for %r' % (f, t.count(old), old))
        open(p, 'w').write(t.replace(old, new))
    b = demo()
    if not b.returncode:
        sys.exit('demo passes with the change')
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', TMPDIR=tmp)
    out = os.path.join(tmp, 'j.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                    '-o', 'junit_family=xunit2', '--junitxml=' + out, 'metsim/tests'], cwd=repo, env=env,
                   capture_output=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    if want - ok:
        sys.exit('tests fail: %s' % sorted(want - ok))
    diff = subprocess.run(['git', 'diff', '--', 'metsim'], cwd=repo, capture_output=True, text=True).stdout
    dst = os.path.join(V, 'seeded', S['ID'])
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copy(d + '/demo.py', dst); shutil.copy(d + '/demo.sh', dst)
    open(dst + '/patch.diff', 'w').write(diff)
    json.dump({'property': S['PROPERTY'], 'needs': S['NEEDS'], 'what_it_breaks': S['BREAKS']},
              open(dst + '/meta.json', 'w'), indent=1)
    print('ok', S['ID'], '|', (b.stdout + b.stderr).strip().splitlines()[-1][:160])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
