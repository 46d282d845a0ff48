"""Assembles DESIGN.md:  python3 tools/design.py  (after tools/meta.py)."""
import ast
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')


def read(*p):
    with open(os.path.join(ROOT, *p)) as fp:
        return fp.read()


def consts(prop):
    out = {}
    for n in ast.parse(read('harness', 'h_%s.py' % prop.lower())).body:
        if isinstance(n, ast.Assign):
            k = getattr(n.targets[0], 'id', '')
            if k in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
                out[k] = ast.literal_eval(n.value)
    return out


def main():
    oracles = json.loads(read('tools', 'oracles.json'))
    out = [read('tools', 'design_head.md').rstrip(), '',
           '## 2. The properties', '']
    for line in read('properties.jsonl').splitlines():
        p = json.loads(line)
        c = consts(p['id'])
        out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
                '* Oracle: ' + oracles[p['id']],
                '* Quantified over: ' + p['quantifier']['text'] + '.',
                '* Bounds: ' + c['BOUNDS'] + '.']
        if c.get('OUTSIDE'):
            out.append('* Outside: ' + c['OUTSIDE'] + '.')
        if c.get('ASSUMPTIONS'):
            out.append('* Assumed: ' + '; '.join(c['ASSUMPTIONS']) + '.')
        out += ['* Beyond tests: ' + p['why_tests_cant'] + '.',
                '* Code: ' + '; '.join('%s (`%s`)' % (m['name'], m['where'])
                                       for m in p['anchors']['mechanism'])
                + '.', '']
    out += [read('tools', 'design_tail.md').rstrip(), '',
            '| planted bug | breaks | needs | check |', '|---|---|---|---|']
    caught = dict(line.split(None, 1) for line in
                  read('tools', 'seed_results.txt').splitlines())
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.loads(read('seeded', d, 'meta.json'))
        out.append('| %s | %s | %s | %s |' % (
            d, m['what_it_breaks'], m['needs'],
            '%s: %s' % (m['property'], 'caught' if caught.get(
                d, '').startswith('rc=1') else 'missed')))
    out += ['', read('tools', 'design_end.md').rstrip()]
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fp:
        fp.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
