"""Record a fix: fixed.py PROPERTY 'commit subject fragment' 'what failed'"""
import json
import os
import subprocess
import sys

pid, frag, what = sys.argv[1:4]
log = subprocess.check_output(
    ['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'log', '--format=%h %s', '--fixed-strings',
     '--grep', frag]).decode().strip().split('\n')
assert len(log) == 1 and log[0], log
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known_findings.jsonl')
with open(p, 'a') as f:
    f.write(json.dumps({'status': 'fixed', 'property': pid, 'what':
                        'fixed: property=%s %s %s' % (
                            pid, log[0].split()[0], what)}) + '\n')
