#!/opt/venv/bin/python
"""plant.py BUGFILE [id...] : turns bug definitions into /verif/seeded/<id>/, confirms each on /repo (applied and undone) and records
which checks catch it in doc/seeded.json.  A bug: dict(id, prop, file, edits=[(old, new)...], demo=python, needs, what,
checks=[extra properties to run])"""
import importlib.util
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
# PLANT_REPO=/tmp/x: work on a scratch copy of /repo and of /verif's checks there instead of on /repo itself
REPO = os.environ.get('PLANT_REPO', '/repo')
SRC = REPO + '/CasimirRio/'
VP, RUN = '/opt/vp', V
os.environ['VERIF_REPO'] = REPO


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh('git -C %s checkout -- .' % REPO)


def scratch():
    global VP, RUN
    if REPO == '/repo':
        return
    VP, RUN = REPO + '.vp', REPO + '.verif'
    sh('rm -rf %s %s %s; cp -a /repo %s; git -C %s checkout -- .; cp -a /opt/vp %s; mkdir %s'
       % (REPO, VP, RUN, REPO, REPO, VP, RUN))
    sh('cp -a %s/check.py %s/engine %s/props %s/known_findings.json %s/properties.jsonl %s/MANIFEST.json %s' % (V, V, V, V, V, V, RUN))
    sh("sed -i 's#/opt/vp#%s#g; s#/repo#%s#g' %s/*.sh %s/*.inc %s/*.py" % (VP, REPO, VP, VP, VP))


def tests():
    b = sh('bash %s/build.sh' % VP)
    if b.returncode:
        return 'build fails: ' + b.stdout[-300:]
    out = '/tmp/o.%d.json' % os.getpid()
    sh('bash %s/test.sh %s' % (VP, out))
    o = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    miss = sorted(set(base['stable']) - set(o['passed']))
    return 'tests fail: %s' % miss if miss else ''


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    scratch()
    rec_path = V + '/doc/seeded.json'
    for b in m.BUGS:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        rec = json.load(open(rec_path)) if os.path.exists(rec_path) else {}
        assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo not clean'
        d = V + '/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        try:
            for e in b['edits']:
                f, old, new = e if len(e) == 3 else (b['file'],) + e
                s = open(SRC + f).read()
                n = s.count(old)
                assert n == 1, (b['id'], 'occurs', n, old)
                open(SRC + f, 'w').write(s.replace(old, new))
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
            open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), "CasimirRio"))\n'
                                            'os.environ.setdefault("MPLBACKEND", "Agg")\n' + b['demo'].strip() + '\n')
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\n'
                                            'export PYTHONDONTWRITEBYTECODE=1\n'
                                            'exec /opt/venv/bin/python "$D/demo.py"\n')
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                      open(d + '/meta.json', 'w'), indent=1)
            t = tests()
            dm = sh('bash %s/demo.sh' % d, cwd=REPO)
            caught = []
            if not t and dm.returncode:
                for p in [b['prop']] + b.get('checks', []):
                    r = sh('%s check.py %s quick' % (PY, p), cwd=RUN)
                    if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout:
                        caught.append(p)
                    else:
                        print('   not caught by', p, r.returncode, r.stdout[-400:])
        finally:
            clean()
        t0 = tests()
        d0 = sh('bash %s/demo.sh' % d, cwd=REPO)
        good = not t and dm.returncode and not t0 and not d0.returncode
        print(b['id'], 'GOOD' if good else 'BAD', '| tests with bug:', t or 'pass', '| demo with bug:', dm.returncode,
              '| demo clean:', d0.returncode, '| caught by', caught, flush=True)
        if not good:
            print(dm.stdout[-500:], d0.stdout[-800:])
            sh('rm -r %s' % d)
            continue
        rec = json.load(open(rec_path)) if os.path.exists(rec_path) else {}
        rec[b['id']] = {'property': b['prop'], 'caught': caught, 'what': b['what']}
        json.dump(rec, open(rec_path, 'w'), indent=1)


main()
