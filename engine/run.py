"""Decides one property: explores every path of its harness cases with the
solver, replays witnesses (and every counterexample) on the real code."""
import argparse
import gc
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)

from engine import explore, guard, loader, terms, values  # noqa
from engine.api import SymApi  # noqa

REPO = os.environ.get('FLATLAND_REPO', '/repo')
HARNESS = os.path.join(ROOT, 'harness')
FUNCS = set()


def _pystart(code, offset):
    fn = code.co_filename
    if fn.startswith(REPO + '/flatland') and code.co_name != '<module>':
        FUNCS.add('%s:%s' % (os.path.relpath(fn, REPO), code.co_qualname))
    return sys.monitoring.DISABLE


LINES = set()


def _line(code, line):
    if code.co_filename.startswith(REPO + '/flatland'):
        LINES.add('%s:%d' % (os.path.relpath(code.co_filename, REPO), line))
    return sys.monitoring.DISABLE


def monitor():
    m = sys.monitoring
    m.use_tool_id(3, 'verif')
    m.register_callback(3, m.events.PY_START, _pystart)
    ev = m.events.PY_START
    if os.environ.get('VERIF_LINES'):
        m.register_callback(3, m.events.LINE, _line)
        ev |= m.events.LINE
    m.set_events(3, ev)


def load(prop):
    loader.install(REPO, HARNESS)
    for name in ('flatland', 'flatland.schema', 'flatland.schema.paths',
                 'flatland.schema.properties', 'flatland.validation',
                 'flatland.validation.network', 'flatland.ext.creditcard',
                 'flatland.out.generic', 'flatland.out.markup',
                 'flatland.out.util', 'flatland.util'):
        importlib.import_module(name)
    f = sys.modules['flatland']
    for k in list(f.__all__):
        getattr(f, k)
    return importlib.import_module('h_' + prop.lower())


class Worker(object):
    def __init__(self, mod, known, path_seconds):
        self.mod, self.known = mod, known
        self.path_seconds = path_seconds
        self.guard = guard.Guard()
        self.n = 0

    def run(self, case_i, items, slice_s):
        """DFS from *items* for about *slice_s* seconds."""
        name, fn, args = self.mod.CASES[case_i][:3]
        st = terms.stats
        base = (st.queries, st.solver_calls, st.sat, st.unsat, st.unknown,
                st.solver_s)
        out = {'case': case_i, 'paths': 0, 'decisions': 0, 'asserts': 0,
               'status': {}, 'covers': set(), 'viol': [], 'ok': [],
               'und': [], 'unknown_sides': 0}
        t0 = time.time()
        stack = list(items)
        while stack and time.time() - t0 < slice_s:
            prefix, model = stack.pop()
            r, p = explore.run_path(
                lambda path: fn(SymApi(path, self.known), *args),
                prefix, model, self.path_seconds)
            stack.extend(p.pending)
            out['paths'] += 1
            out['decisions'] += r.decisions - len(prefix)
            out['asserts'] += r.assertions
            out['unknown_sides'] += r.unknown
            out['status'][r.status] = out['status'].get(r.status, 0) + 1
            out['covers'] |= r.covers
            if r.status != 'pruned':
                try:
                    w = dict((k, values.concrete(v, r.model))
                             for k, v in r.inputs)
                except KeyError:
                    w = None
                if r.status == 'violation':
                    if len(out['viol']) < 6:
                        out['viol'].append((w, r.msg, p.notes[-1:]))
                elif r.status == 'ok':
                    if out['status']['ok'] % 7 == 1 and len(out['ok']) < 40:
                        obs = [values.concrete(o, r.model)
                               for o in r.observed]
                        out['ok'].append((w, obs, sorted(r.covers)))
                elif len(out['und']) < 10:
                    out['und'].append((w, r.status, r.msg))
            self.guard.restore()
            self.n += 1
            if self.n % 200 == 0:
                gc.collect()
                if len(terms._intern) > 400000:
                    terms.reset_interning()
        out['pending'] = stack
        now = (st.queries, st.solver_calls, st.sat, st.unsat, st.unknown,
               st.solver_s)
        out['stats'] = [b - a for a, b in zip(base, now)]
        out['funcs'] = sorted(FUNCS)
        if os.environ.get('VERIF_LINES'):
            fn = '%s.%d' % (os.environ['VERIF_LINES'], os.getpid())
            with open(fn, 'w') as fp:
                fp.write('\n'.join(sorted(LINES)))
        return out


def worker_main(worker, tasks, results):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        t = tasks.get()
        if t is None:
            return
        try:
            results.put(worker.run(*t))
        except BaseException:
            results.put({'error': traceback.format_exc(), 'case': t[0]})


def canon(x):
    if isinstance(x, list):
        x = [canon(y) for y in x]
        if x and x[0] in ('~dict', '~set'):
            x = [x[0]] + sorted(x[1:], key=lambda y: json.dumps(y))
        return x
    return x


def jython(prop, witnesses, known, seconds=150):
    """Run [(case, witness)] on the real code; list of result dicts."""
    if not witnesses:
        return []
    tmp = tempfile.mkdtemp(prefix='flverif')
    try:
        job = os.path.join(tmp, 'job.json')
        out = os.path.join(tmp, 'out.json')
        with open(job, 'w') as fp:
            json.dump({'module': 'h_' + prop.lower(), 'harness': HARNESS,
                       'repo': REPO, 'witnesses': witnesses,
                       'known': sorted(known), 'seconds': seconds}, fp)
        env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
                   JYTHONPATH='%s:/opt/jylib' % REPO)
        try:
            p = subprocess.run(
                ['jython', '-B', os.path.join(HERE, 'jyrun.py'), job, out],
                env=env, cwd=tmp, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=seconds + 60)
        except subprocess.TimeoutExpired:
            return None
        if not os.path.exists(out):
            sys.stdout.write(p.stdout.decode('utf-8', 'replace')[-3000:])
            return None
        with open(out) as fp:
            return json.load(fp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_ids(prop):
    ids, lines = set(), []
    fn = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(fn):
        with open(fn) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    ident, what = line.split(' ', 2)[2].split(' ', 1)
                    ids.add(ident)
                    lines.append((ident, what))
    return ids, lines


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-jython', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = a.budget or (600 if tier == 'quick' else 3000)
    monitor()
    known, known_lines = known_ids(prop)
    mod = load(prop)
    cases = [i for i, c in enumerate(mod.CASES)
             if (tier == 'thorough' or c[4] == 'q')
             and (not a.case or c[0].startswith(a.case))]
    w = Worker(mod, known, 60)
    gc.collect()
    gc.freeze()
    ctx = multiprocessing.get_context('fork')
    tasks, results = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=worker_main, args=(w, tasks, results),
                         daemon=True) for _ in range(a.j)]
    for p in procs:
        p.start()
    agg = dict((i, {'paths': 0, 'decisions': 0, 'asserts': 0, 'status': {},
                    'covers': set(), 'viol': [], 'ok': [], 'und': [],
                    'unknown_sides': 0, 'queue': [([], {})], 'busy': 0,
                    'stopped': False, 'wall': 0.0}) for i in cases)
    stats = [0, 0, 0, 0, 0, 0.0]
    funcs = set()
    outstanding = 0
    errors = []
    deadline = t0 + budget
    timed_out = False

    def feed():
        nonlocal outstanding
        # round-robin over cases, small slices first
        progress = True
        while progress and outstanding < a.j + 4:
            progress = False
            for i in cases:
                g = agg[i]
                if g['queue'] and outstanding < a.j + 4:
                    n = max(1, min(40, len(g['queue']) // 8))
                    items, g['queue'] = g['queue'][-n:], g['queue'][:-n]
                    slice_s = 0.3 if g['paths'] < 50 else 1.5
                    tasks.put((i, items, slice_s))
                    g['busy'] += 1
                    outstanding += 1
                    progress = True
    feed()
    while outstanding:
        r = results.get()
        outstanding -= 1
        g = agg[r['case']]
        g['busy'] -= 1
        if 'error' in r:
            errors.append(r['error'])
            feed()
            continue
        for k in ('paths', 'decisions', 'asserts', 'unknown_sides'):
            g[k] += r[k]
        for k, v in r['status'].items():
            g['status'][k] = g['status'].get(k, 0) + v
        g['covers'] |= r['covers']
        g['viol'].extend(r['viol'])
        g['ok'].extend(r['ok'])
        g['und'].extend(r['und'])
        funcs.update(r['funcs'])
        stats = [x + y for x, y in zip(stats, r['stats'])]
        if len(g['viol']) >= 12:
            g['stopped'] = True
        if g['stopped']:
            g['queue'] = []
        else:
            g['queue'].extend(r['pending'])
        if not g['queue'] and not g['busy']:
            g['wall'] = time.time() - t0
        if time.time() > deadline:
            timed_out = True
        else:
            feed()
    for p in procs:
        tasks.put(None)
    unexplored = sum(len(agg[i]['queue']) for i in cases)
    solve_wall = time.time() - t0

    # ---- replay on the real code
    viol, bad = [], []
    for i in cases:
        for wit, msg, notes in agg[i]['viol'][:12]:
            viol.append((mod.CASES[i][0], wit, msg, notes))
    confirmed, spurious, mismatches, validated = [], [], [], 0
    jy_failed = False
    if viol and not a.no_jython:
        res = jython(prop, [(c, wt) for c, wt, m, n in viol[:60]], known)
        if res is None:
            jy_failed = True
        for v, r in zip(viol, res or []):
            if r['status'] == 'violation':
                confirmed.append((v, r))
            else:
                spurious.append((v, r))
    sample = []
    if not a.no_jython:
        per = max(6, 320 // max(1, len(cases)))
        for i in cases:
            ok = sorted(agg[i]['ok'], key=lambda o: hash_of(o[0], seed))
            for wit, obs, cov in ok[:per]:
                sample.append((mod.CASES[i][0], wit, 'ok', obs, cov))
            for wit, status, msg in agg[i]['und'][:6]:
                if wit is not None:
                    sample.append((mod.CASES[i][0], wit, status, None, None))
        res = jython(prop, [(s[0], s[1]) for s in sample], known)
        if res is None:
            jy_failed = True
        for s, r in zip(sample, res or []):
            if r['status'] == 'violation':
                confirmed.append(((s[0], s[1], r['msg'], []), r))
            elif s[2] == 'ok':
                if r['status'] == 'ok' and canon(r['observed']) == canon(
                        json.loads(json.dumps(s[3]))) \
                        and r['covers'] == s[4]:
                    validated += 1
                else:
                    mismatches.append((s, r))
            # a path cut short still ran to its end on the real code
    # ---- report
    rc = 0
    per_case = {}
    for i in cases:
        g = agg[i]
        c = mod.CASES[i]
        missing = [x for x in c[3] if x not in g['covers']]
        und = sum(n for k, n in g['status'].items()
                  if k in ('leak', 'limit', 'diverged'))
        per_case[c[0]] = {
            'paths': g['paths'], 'status': g['status'],
            'assertions': g['asserts'], 'undecided': und,
            'unexplored': len(g['queue']), 'markers': sorted(g['covers'])}
        if a.v:
            print('%-28s %6d paths %s pend=%d wall=%.1f' % (
                c[0], g['paths'], g['status'], len(g['queue']), g['wall']))
        for wit, st, msg in g['und'][:3 if a.v else 1]:
            print('NOTE: %s: path not decided (%s: %s) %s' % (
                c[0], st, msg, json.dumps(wit) if a.v else ''))
        if missing and not g['stopped'] and not g['queue'] and not viol:
            m = 'case %s never reached %s' % (c[0], missing)
            if und:
                # paths this encoding could not follow may have got there
                print('NOTE: ' + m)
            else:
                bad.append(m)
        if not g['paths']:
            bad.append('case %s explored nothing' % c[0])
    for e in errors[:2]:
        bad.append('engine error: ' + e)
    if jy_failed:
        bad.append('the replay runner gave no result')
    for (s, r) in mismatches[:8]:
        print('NOTE: encoding and real run differ: %s %s engine=%s real=%s' % (
            s[0], json.dumps(s[1]), json.dumps([canon(s[3]), s[4]])[:700],
            json.dumps([r['status'], r['msg'][-600:], canon(r['observed']),
                        r['covers']])[:1200]))
    for (v, r) in spurious[:8]:
        print('NOTE: counterexample not reproduced on the real code: %s %s %s'
              % (v[0], json.dumps(v[1]), v[2]))
        if a.v and v[3]:
            print(v[3][0][-2500:])
    if a.no_jython:
        for v in viol[:10]:
            print('CANDIDATE', v[0], json.dumps(v[1]), v[2])
            if v[3]:
                print(v[3][0][-1500:])
    for ident, what in known_lines:
        hit = any('known:' + ident in agg[i]['covers'] for i in cases)
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    shown = set()
    nviol = 0
    for v, r in confirmed:
        key = (v[0], r['msg'].split('\n')[0][:60])
        if key in shown:
            continue
        shown.add(key)
        nviol += 1
        if nviol > 6:
            break
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s-%d.json' % (prop, nviol))
        with open(fn, 'w') as fp:
            json.dump({'property': prop, 'case': v[0], 'witness': v[1],
                       'message': r['msg'],
                       'rerun': 'python3-vt %s/replay.py %s' % (HERE, fn)},
                      fp, indent=1)
        print('counterexample in %s: %s' % (v[0], r['msg'][:1500]))
        print('  inputs: %s' % json.dumps(v[1]))
        print('VIOLATION property=%s replay=%s' % (prop, fn))
        rc = 1
    if bad and not rc:
        for b in bad:
            print('ERROR:', b)
        rc = 2
    tot = {}
    for i in cases:
        for k, n in agg[i]['status'].items():
            tot[k] = tot.get(k, 0) + n
    npaths = sum(agg[i]['paths'] for i in cases)
    undecided = sum(tot.get(k, 0) for k in ('leak', 'limit', 'diverged')) + \
        len(spurious)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': npaths,
            'transitions': sum(agg[i]['decisions'] for i in cases),
            'traces_validated_against_impl': validated,
            'samples': [{'case': s[0], 'inputs': s[1], 'observed': s[3]}
                        for s in sample if s[2] == 'ok'][:6],
            'explanation':
                'states = symbolic paths of the real code executed to their '
                'end; transitions = branch conditions decided by the solver; '
                'traces = path witnesses run on the real code under Jython '
                'whose observations equal the encoding\'s.',
            'functions_encoded': sorted(funcs),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'cases': per_case,
            'path_status': tot,
            'assertions_decided': sum(agg[i]['asserts'] for i in cases),
            'undecided_paths': undecided,
            'unexplored_paths': unexplored,
            'unknown_branch_sides': sum(agg[i]['unknown_sides']
                                        for i in cases),
            'exhaustive': not (unexplored or undecided or timed_out),
            'solver': {'questions': stats[0], 'solver_calls': stats[1],
                       'sat': stats[2], 'unsat': stats[3],
                       'unknown': stats[4], 'seconds': round(stats[5], 2)},
            'counterexamples_not_reproduced': len(spurious),
            'encoding_mismatches': len(mismatches),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'byte strings are ASCII text; characters are the BMP without '
            'surrogates; text lengths, list lengths and tree shapes as in '
            'bounds'],
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    if not a.no_evidence and not a.case:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, sort_keys=True)
    print('%s: %d paths %s, %d branch queries (%d to z3, %.1fs), '
          '%d traces validated, %d mismatches, %d unexplored, '
          '%.1fs (+%.1fs replay)' % (
              prop, npaths, tot, stats[0], stats[1], stats[5], validated,
              len(mismatches), unexplored, solve_wall, wall - solve_wall))
    sys.stdout.flush()
    for p in procs:
        p.join(1)
        if p.is_alive():
            p.terminate()
    os._exit(rc)


def hash_of(w, seed):
    import hashlib
    return hashlib.md5((json.dumps(w, sort_keys=True) + str(seed)).encode(
        'utf-8')).hexdigest()


if __name__ == '__main__':
    main()
