"""plant.py ID [tests] : build /verif/seeded/ID from /tmp/w1/bugs/ID.py, run demo both ways, optionally stable tests."""
import sys, os, subprocess, json, shutil
bid = sys.argv[1]; ns = {}
exec(open('/tmp/w1/bugs/%s.py' % bid).read(), ns)
S = '/tmp/w1/bugs/%s.repo' % bid
shutil.rmtree(S, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', S])
for f, old, new in ns['edits']:
    p = S + '/' + f; t = open(p).read()
    assert t.count(old) == 1, (f, old, t.count(old))
    open(p, 'w').write(t.replace(old, new))
D = '/verif/seeded/' + bid
os.makedirs(D, exist_ok=True)
open(D + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', S, 'diff'], text=True))
if ns.get('demo'):
    if not ns.get('notb'): shutil.copy('/tmp/w1/seed/tb.py', D + '/tb.py')
    open(D + '/demo.py', 'w').write(('' if ns.get('notb') else 'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom tb import *\n') + ns['demo'])
    open(D + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(D + '/meta.json', 'w'), indent=1)
    for w, r in (('clean', '/repo'), ('bug', S)):
        p = subprocess.run(['bash', D + '/demo.sh'], cwd=r, capture_output=True, text=True)
        print(bid, w, 'demo rc', p.returncode, (p.stdout + p.stderr).strip().splitlines()[-1:])
    shutil.rmtree(D + '/__pycache__', ignore_errors=True)
for c in ns.get('checks', [ns['prop']]):
    e = dict(os.environ, VERIF_REPO=S, VERIF_SEED='1')
    p = subprocess.run(['/opt/venv/bin/python', '/verif/run.py', c], cwd='/verif', env=e, capture_output=True, text=True)
    print(bid, c, 'check rc', p.returncode, p.stdout.strip().splitlines()[-1:][0][:200] if p.stdout.strip() else p.stderr[-300:])
if 'tests' in sys.argv:
    t = open('/opt/vp/test.sh').read().replace('/repo', S)
    open('/tmp/w1/bugs/%s.sh' % bid, 'w').write(t)
    o = '/tmp/w1/bugs/%s.json' % bid
    p = subprocess.run(['bash', '/tmp/w1/bugs/%s.sh' % bid, o], capture_output=True, text=True)
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r = json.load(open(o))
    miss = b - set(r['passed'])
    print(bid, 'tests: missing', len(miss), sorted(miss)[:3], p.stdout[-200:] if miss else '')
shutil.rmtree(S, ignore_errors=True)
