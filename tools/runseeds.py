"""python3 tools/runseeds.py [PATTERN...]: the check of each planted bug's property, on a scratch copy with the bug"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for id in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    if len(sys.argv) > 1 and not any(x in id for x in sys.argv[1:]):
        continue
    d = os.path.join(HERE, 'seeded', id)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='rs-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/repo'], check=True)
        subprocess.run(['git', '-C', tmp + '/repo', 'apply', os.path.join(d, 'patch.diff')], check=True)
        t = time.time()
        r = subprocess.run(['python3-vt', '-m', 'pyvc.check', prop], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, PYVC_REPO=tmp + '/repo'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        how = 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}'
        if how == 'CAUGHT' and all('no-failing-input' in x for x in v):
            how += ' (no input)'
        print(f'{id}: {how} {time.time() - t:.0f}s', flush=True)
    finally:
        shutil.rmtree(tmp)
