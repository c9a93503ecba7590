"""plant a bug: tools/seed.py ID  — verifies /verif/seeded/ID (spec.json holds the edits) in scratch copies; --check also runs the property's check with the patch applied to a scratch clone"""
import json, os, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def plant(id, prop, needs, breaks, edits, demo):
    """edits: [(file, old, new)]"""
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    sc = tempfile.mkdtemp(dir='/tmp')
    try:
        sh('cp -a /repo/. %s' % sc)
        for f, a, b in edits:
            p = os.path.join(sc, 'quantificationlib', f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        _, diff = sh('git diff', sc)
        open(d + '/patch.diff', 'w').write(diff)
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l.strip('- '):
                if not any(l[1:] in sh('git show 76616a3:quantificationlib/%s' % f, '/repo')[1].splitlines() for f, _, _ in edits):
                    print(id, 'NOT ORIGINAL:', l)
        open(d + '/demo.py', 'w').write('import os, sys, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter("ignore")\nimport numpy as np\n' + demo.strip() + '\nprint("ok")\n')
        open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        r0, o0 = sh(d + '/demo.sh', '/repo')
        r1, o1 = sh(d + '/demo.sh', sc)
        rt, ot = sh('/opt/venv/bin/python -m pytest -q -x --timeout=300 2>&1 | tail -3; true' if False else '/opt/venv/bin/python -m pytest -q 2>&1 | tail -2', sc)
        env = dict(os.environ, PYDV_REPO=sc)
        rc, oc = sh('./check %s' % prop, ROOT, env)
        v = [l for l in oc.splitlines() if l.startswith('VIOLATION')]
        print('%s demo %s/%s tests: %s | check rc=%s %s' % (id, r0, r1, ot.strip().splitlines()[-1] if ot.strip() else '?', rc, ' ; '.join(x[:150] for x in v[:3])))
        if r0 != 0 or r1 == 0:
            print(o0[-600:], o1[-300:])
        if not v and rc:
            print(oc[-800:])
    finally:
        shutil.rmtree(sc)
