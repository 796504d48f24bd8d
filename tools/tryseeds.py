#!/usr/bin/env python3
"""Run the checks against planted changes, each applied to a scratch copy of /repo: tryseeds.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(ids):
    S = os.path.join(V, 'seeded')
    for i in ids or sorted(os.listdir(S)):
        pid = json.load(open(os.path.join(S, i, 'meta.json')))['property']
        W = tempfile.mkdtemp(prefix='seedtry.')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', W + '/r'], check=True)
            subprocess.run(['git', '-C', W + '/r', 'apply', os.path.join(S, i, 'patch.diff')], check=True)
            p = subprocess.run(['python3-vt', os.path.join(V, 'check.py'), pid], env=dict(os.environ, VP_REPO=W + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            ob = [l.strip()[:200] for l in p.stdout.splitlines() if l.startswith('  ')]
            print('%-28s %s rc=%d %s' % (i, pid, p.returncode, 'CAUGHT' + (' (no input)' if 'no-failing' in v[0] else '') if v else 'MISSED'), flush=True)
            for o in ob[:3]: print('      ', o, flush=True)
            if p.returncode not in (0, 1): print(p.stdout[-800:])
        finally: shutil.rmtree(W)
main(sys.argv[1:])
