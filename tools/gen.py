"""Generates properties.jsonl and MANIFEST.json from tools/props.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props                                                # noqa


def main():
    checks = []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in sorted(props.PROPS, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'],
                'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mechanism']],
                    'observe_at': p.get('observe', []),
                    'hook_needed': None},
                }) + '\n')
            if p['id'] in props.NOT_APPLICABLE:
                continue
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3 run.py %s quick' % p['id'],
                'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                'technique': p['technique'],
                'level': p['level'],
                'level_note': p['level_note']})
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 -m compileall -q run.py mc checks',
        'checks': checks,
        'not_applicable': [{'property': k, 'reason': v}
                           for k, v in sorted(props.NOT_APPLICABLE.items())],
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
