"""python3 tools/seed.py ID PROP FILE 'needs' 'breaks' < spec     (spec: old text, a line '====', new text, a line '====', demo code)

Plants one bug in a scratch copy, confirms build, tests and demonstration, and keeps it under seeded/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(id, prop, file, needs, breaks, old, new, demo):
    d = os.path.join(HERE, 'seeded', id)
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r)
        p = os.path.join(r, 'src/pyrusgeom', file)
        s = open(p).read()
        if s.count(old) != 1:
            print(f'{id}: the old text occurs {s.count(old)} times')
            return False
        base = tempfile.mkdtemp(dir=tmp)
        os.makedirs(os.path.join(base, 'x'))
        for n, t in (('demo.py', demo), ('demo.sh', '#!/bin/bash\n# run with cwd /repo\nPYTHONPATH=src PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')):
            with open(os.path.join(base, n), 'w') as f:
                f.write(t)
        run = lambda: subprocess.run(['bash', os.path.join(base, 'demo.sh')], cwd=r, capture_output=True, text=True)
        a = run()
        if a.returncode != 0:
            print(f'{id}: the demonstration fails on the unchanged tree\n{a.stderr[-600:]}')
            return False
        with open(p, 'w') as f:
            f.write(s.replace(old, new))
        b = run()
        if b.returncode == 0:
            print(f'{id}: the demonstration passes with the change')
            return False
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=os.path.join(r, 'src'), PYTHONDONTWRITEBYTECODE='1'))
        if t.returncode != 0:
            print(f'{id}: the tests notice it: ' + ' | '.join(x for x in t.stdout.splitlines() if x.startswith('FAILED'))[:300])
            return False
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(base, n), d)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(f'{id}: kept ({b.stderr.strip().splitlines()[-1][:100] if b.stderr.strip() else ""})')
        return True
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    old, new, demo = sys.stdin.read().split('\n====\n')
    sys.exit(0 if plant(*sys.argv[1:6], old, new, demo) else 1)
