#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and the table in DESIGN.md from meta.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import meta      # noqa: E402

LEVEL = ('Bounded symbolic execution of the real source, exhaustive up to the bounds in the '
         'evidence file when it says so: every path condition is decided by z3, each violating '
         'path is replayed on the unmodified package in a fresh process before it is reported. '
         'Trusts the instrumentation and its models of built-ins (every path is also run '
         'natively with its model values and must agree), z3 and CPython.')


def seeded():
    out = ['| change | breaks | needs | caught by |\n|---|---|---|---|\n']
    root = os.path.join(V, 'seeded')
    missed = json.load(open(os.path.join(HERE, 'missed.json')))
    for i in sorted(os.listdir(root)):
        m = json.load(open(os.path.join(root, i, 'meta.json')))
        out.append('| %s | %s | %s | %s |\n' % (
            i, m['what_it_breaks'], m['needs'], missed.get(i, m['property'] + ' quick')))
    return ''.join(out)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in meta.P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
            }) + '\n')
    m = {'version': 1,
         'setup_cmd': './check.py --self-test',
         'checks': [], 'not_applicable': [
             {'property': i, 'reason': r} for i, r in getattr(meta, 'NA', [])],
         'notes': 'No hooks: the engine instruments the source of /repo when it loads it. '
                  'See DESIGN.md.'}
    for p in meta.P:
        if p['id'] in [i for i, _ in getattr(meta, 'NA', [])]:
            continue
        c = {'property': p['id'], 'quick_cmd': './check.py %s quick' % p['id'],
             'evidence_file': 'evidence/%s.json' % p['id'],
             'technique': 'solver-based: symbolic execution of the real Python source with z3, '
                          'bounded, counterexamples replayed',
             'level': 'model_checking', 'level_note': p['note'] or LEVEL}
        if p['thorough']:
            c['thorough_cmd'] = './check.py %s thorough' % p['id']
        m['checks'].append(c)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    d = os.path.join(V, 'DESIGN.md')
    if os.path.exists(d):
        s = open(d).read()
        a, rest = s.split('<!-- properties -->\n')
        _, b = rest.split('<!-- end -->\n')
        out = []
        for p in meta.P:
            out.append('**%s %s.** %s\n*Bounds:* %s.\n*Why tests cannot:* %s\n' % (
                p['id'], p['title'], p['design'], p['text'], p['why']))
        b = b.split('<!-- seeded -->\n')[0] + '<!-- seeded -->\n' + seeded()
        open(d, 'w').write(a + '<!-- properties -->\n' + '\n'.join(out) + '<!-- end -->\n' + b)
    try:
        import jsonschema
        for n, x in (('MANIFEST', m),):
            jsonschema.validate(x, json.load(open('/root/.vp/%s.schema.json' % n)))
        sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(V, 'properties.jsonl')):
            jsonschema.validate(json.loads(l), sc)
    except ImportError:
        print('no jsonschema')


main()
