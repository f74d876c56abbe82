"""plant.py FILE...: makes seeded/<id>/ from bug descriptions and confirms each of them in a scratch copy of /repo.

A description is a Python file defining id, property, edits=[(file, old, new)], needs, what, demo (Python source)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', **env)
    return subprocess.run(cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main(f, check=True):
    ns = {}
    exec(open(f).read(), ns)
    d = os.path.join(HERE, 'seeded', ns['id'])
    tmp = tempfile.mkdtemp(prefix='plant')
    c = os.path.join(tmp, 'repo')
    subprocess.run(['cp', '-a', os.environ.get('PLANT_REPO', '/repo'), c], check=True)
    try:
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(ns['demo'].strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r0 = sh('bash %s/demo.sh' % d, c)
        for fn, old, new in ns['edits']:
            p = os.path.join(c, 'meshmagick', fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns['id'], 'edit matches', s.count(old), 'times'); return False
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=c, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        r1 = sh('bash %s/demo.sh' % d, c)
        t = sh('%s -m pytest -q -p no:cacheprovider -x meshmagick 2>&1 | tail -3' % PY, c, PYTHONPATH=c)
        ok = r0.returncode == 0 and r1.returncode != 0 and '23 passed' in t.stdout
        json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['what']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(ns['id'], 'demo', r0.returncode, r1.returncode, t.stdout.strip().splitlines()[-1])
        if r0.returncode:
            print(r0.stdout[-800:])
        if ok and check and os.path.isfile(os.path.join(HERE, 'checks', ns['property'].lower() + '.py')):
            k = sh('./check %s --tier quick' % ns['property'], HERE, SYMX_REPO=c)
            v = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
            print('   check', k.returncode, (v or k.stdout.splitlines()[-2:])[0:1])
        return ok
    finally:
        shutil.rmtree(tmp)


for f in sys.argv[1:]:
    if f != '--nocheck':
        if not main(f, '--nocheck' not in sys.argv):
            print('   NOT VALID')
