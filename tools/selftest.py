"""setup_cmd: the tools the checks use are there"""
import subprocess
import sys
sys.dont_write_bytecode = True
import z3, cvc5  # noqa
subprocess.check_call(['/opt/venv/bin/python', '-B', '-c', 'import metsim, numpy, pandas, xarray, scipy, numba'], env=dict(PYTHONPATH='/repo', PATH='/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1'))
import os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean', 'Sums.lean')
try:
    r = subprocess.run(['lean', f], capture_output=True, text=True, timeout=900)
    print('lean/Sums.lean: ' + ('accepted' if r.returncode == 0 else 'REJECTED\n' + r.stdout))
except (OSError, subprocess.TimeoutExpired) as e:
    print('lean/Sums.lean: not run (%s)' % e)
print('ok')
