#!/usr/bin/env python3
"""Make and confirm a planted change: python3 mk.py <id>  (definitions in seeds.py)"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
import seeds
V='/verif/seeded'; L=os.path.dirname(os.path.abspath(__file__))
FAST = os.environ.get('FAST')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(ids):
    for i in ids:
        s = seeds.S[i]; d = os.path.join(V, i)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        W = '/tmp/seedrepo.%d' % os.getpid(); shutil.rmtree(W, ignore_errors=True)
        sh('git clone -q /repo ' + W)
        for f, old, new, *k in s['edits']:
            p = os.path.join(W, f); t = open(p).read()
            assert t.count(old) == (k[0] if k else 1), (i, f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
        for n, t in s['files'].items(): open(os.path.join(d, n), 'w').write(t)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash %s/demo.sh' % d, cwd=W)
        sh('git -C %s checkout -- .' % W)
        a = sh('bash %s/demo.sh' % d, cwd=W)
        good = t = True
        if any('hash' in e[0] and not FAST for e in s['edits']):
            # the tests build from /repo only
            assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo dirty'
            sh('git -C /repo apply %s/patch.diff' % d)
            try:
                sh('bash /opt/vp/test.sh /tmp/seedtest.json')
                t = json.load(open('/tmp/seedtest.json'))
                good = not t['failed'] and len(t['passed']) == 4
            finally:
                sh('git -C /repo checkout -- .')
                sh('bash /opt/vp/build.sh')
        shutil.rmtree(W)
        ok = a.returncode == 0 and b.returncode != 0 and good
        print(i, 'CONFIRMED' if ok else 'REJECTED', 'clean=%d patched=%d tests=%s' % (a.returncode, b.returncode, t), '' if ok else (a.stdout[-600:] + '\n---\n' + b.stdout[-600:]), '| ' + b.stdout.strip()[-120:].replace('\n', ' / '))
        if not ok: shutil.rmtree(d)
main(sys.argv[1:] or list(seeds.S))
