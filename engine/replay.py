"""Runs one recorded counterexample on the real code (Jython) and says
whether it still violates its property: exit 1 if so, 0 if not."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('FLATLAND_REPO', '/repo')


def main(fn):
    with open(fn) as fp:
        r = json.load(fp)
    tmp = tempfile.mkdtemp(prefix='flreplay')
    try:
        job, out = os.path.join(tmp, 'job.json'), os.path.join(tmp, 'out.json')
        with open(job, 'w') as fp:
            json.dump({'module': 'h_' + r['property'].lower(),
                       'harness': os.path.join(ROOT, 'harness'),
                       'repo': REPO, 'known': [],
                       'witnesses': [[r['case'], r['witness']]]}, fp)
        env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
                   JYTHONPATH='%s:/opt/jylib' % REPO)
        subprocess.run(['jython', '-B', os.path.join(HERE, 'jyrun.py'), job,
                        out], env=env, cwd=tmp, check=True, timeout=300)
        with open(out) as fp:
            res = json.load(fp)[0]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print('case    %s' % r['case'])
    print('inputs  %s' % json.dumps(r['witness']))
    print('status  %s' % res['status'])
    print(res['msg'])
    return 1 if res['status'] == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
