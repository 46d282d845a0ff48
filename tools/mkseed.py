"""Makes and vets planted bugs.

    python3 tools/mkseed.py FILE [id...]      (FILE defines S(...) entries)

For each: patch in a scratch copy of /repo, demo on both trees, the stable
tests and the property's check against the scratch copy; writes
/verif/seeded/<id>/ when the bug is a valid one.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SC = '/tmp/sc'
SEEDS = []

DEMO_SH = '''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 JYTHONPATH="$PWD:/opt/jylib"
exec jython -B "$d/demo.py"
'''


def S(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append((id, prop, file, edits, needs, breaks, demo))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True,
                          **kw)


def one(seed):
    id, prop, file, edits, needs, breaks, demo = seed
    d = '%s/%s' % (SC, id)
    sh('rm -rf %s' % d)
    sh('mkdir -p %s && cp -a /repo %s/r' % (d, d))
    r = d + '/r'
    base = os.environ.get('FLATLAND_REPO')
    files = [file] if isinstance(edits[0], tuple) else None
    for e in edits:
        f, (old, new) = (file, e) if len(e) == 2 else (e[0], e[1:])
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            return id, 'BAD EDIT (%d matches): %s' % (s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % r).stdout
    out = os.path.join(d, 'seed')
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write('# -*- coding: utf-8 -*-\n' +
                                      demo.strip('\n') + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(out + '/meta.json', 'w'), indent=1)
    a = sh('cd /repo && timeout 250 sh %s/demo.sh' % out)
    b = sh('cd %s && timeout 250 sh %s/demo.sh' % (r, out))
    if a.returncode:
        return id, 'DEMO FAILS ON CLEAN: ' + a.stdout[-600:]
    if not b.returncode:
        return id, 'DEMO PASSES WITH BUG'
    sh("sed 's#/repo#%s#g' /opt/vp/test.sh > %s/test.sh" % (r, d))
    t = sh('bash %s/test.sh %s/o.json' % (d, d))
    try:
        o = json.load(open(d + '/o.json'))
    except Exception:
        return id, 'NO TEST RESULT ' + t.stdout[-500:]
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    lost = [x for x in st if x not in o['passed']]
    if lost:
        return id, 'TESTS FAIL: %s' % lost[:3]
    c = check(prop, r)
    dest = os.path.join(ROOT, 'seeded', id)
    sh('rm -rf %s; cp -a %s %s' % (dest, out, dest))
    sh('rm -rf %s' % d)
    return id, c


def check(prop, r):
    if not os.path.exists(ROOT + '/harness/h_%s.py' % prop.lower()):
        return 'valid; no check yet'
    c = sh('cd %s && FLATLAND_REPO=%s ./check %s --no-evidence' % (
        ROOT, r, prop))
    v = [l for l in c.stdout.split('\n') if l.startswith(
        ('VIOLATION', 'counterexample', 'ERROR', 'NOTE'))]
    return 'rc=%d %s' % (c.returncode, ' | '.join(x[:150] for x in v[:3]))


def recheck(ids):
    """Run the checks against already accepted seeds."""
    base = ROOT + '/seeded'
    for id in ids or sorted(os.listdir(base)):
        d = '%s/re-%s' % (SC, id)
        sh('rm -rf %s; mkdir -p %s && cp -a /repo %s/r' % (d, d, d))
        a = sh('git -C %s/r apply %s/%s/patch.diff' % (d, base, id))
        meta = json.load(open('%s/%s/meta.json' % (base, id)))
        print(id, a.stdout or check(meta['property'], d + '/r'), flush=True)
        sh('rm -rf %s' % d)


if __name__ == '__main__':
    if sys.argv[1] == 'recheck':
        recheck(sys.argv[2:])
    else:
        exec(open(sys.argv[1]).read())
        todo = [s for s in SEEDS if not sys.argv[2:] or s[0] in sys.argv[2:]]
        with ThreadPoolExecutor(int(os.environ.get("NJ", 3))) as ex:
            for id, res in ex.map(one, todo):
                print(id, res, flush=True)
