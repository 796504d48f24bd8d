"""Concrete runs of the real code against the reference SSZ implementation: they replay failed obligations and are the labelled
bounded stand-in where the verifier is undecided."""
import os, random, shutil, subprocess, time, hashlib
from . import common as C, ssz
from vasm import asm

FLAGS = ['-std=c++20', '-w', '-O0', '-fno-access-control', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr',
         '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
SRC = ['common/bitlist.cpp', 'ssz/hashtree.cpp', 'ssz/ssz_container.cpp', 'ssz/hasher.cpp', 'beacon-chain/attestation.cpp', 'beacon-chain/beacon_block.cpp',
       'beacon-chain/beacon_state.cpp', 'beacon-chain/validator.cpp']
PARTS = ('bytes', 'bits', 'lists', 'vecs', 'gen', 'cont', 'misc')
ASM = ['sha256_avx_one_block', 'sha256_avx', 'sha256_avx2', 'sha256_shani']


def build(check, preset='minimal', want=PARTS):
    """the driver binary, or None (with a note) when something does not compile"""
    t = check.tmp; d = os.path.join(t, 'batt_' + preset); os.makedirs(d, exist_ok=True)
    ncv = C.ncv(t); cfg = C.gen_config(t, preset)
    S = ssz.schema(preset)
    open(os.path.join(d, 'types.inc'), 'w').write('\n'.join('C(%s)' % n for n in S))
    open(os.path.join(d, 'fields.inc'), 'w').write('\n'.join(
        'template <class X> std::string fields_%s(const X& x) { std::string r; %s return r; } template <class X> std::string acc_%s(const X& x) { std::string r; %s return r; }' % (n, ' '.join('F(%s)' % f for f, _ in c.fields), n, ' '.join('G(%s)' % f for f, _ in c.fields)) for n, c in S.items()))
    inc = ['-I' + ncv, '-I' + d, '-I' + cfg, '-I' + os.path.join(cfg, 'include'), '-I' + C.REPO, '-I' + os.path.join(C.VERIF, 'batt')]
    jobs = []; objs = []; stubs = []
    for s in SRC:
        if s.startswith('beacon-chain') and not ('cont' in want or 'misc' in want): continue
        o = os.path.join(d, s.replace('/', '_') + '.o'); objs.append(o)
        jobs.append((s, lambda s=s, o=o: C.run(['clang++'] + FLAGS + inc + ['-c', os.path.join(C.REPO, s), '-o', o])))
    for k in ('main',) + PARTS:
        if k != 'main' and k not in want: stubs.append('void reg_%s() {}' % k); continue
        o = os.path.join(d, 'drv_%s.o' % k); objs.append(o)
        jobs.append(('drv_' + k, lambda k=k, o=o: C.run(['clang++'] + FLAGS + inc + ['-c', os.path.join(C.VERIF, 'batt/drv_%s.cpp' % k), '-o', o])))
    for a in ASM:
        objs.append(os.path.join(t, a + '.o'))
        if not os.path.exists(objs[-1]): jobs.append((a, lambda a=a: asm.assemble(a, t)))
    if stubs:
        s = os.path.join(d, 'stubs.cpp'); open(s, 'w').write('\n'.join(stubs))
        o = s[:-4] + '.o'; objs.append(o)
        jobs.append(('stubs', lambda: C.run(['clang++', '-c', s, '-o', o])))
    r = C.parallel(jobs)
    bad = [(n, v[1]) for n, v in r.items() if v[0] != 'ok']
    if bad:
        check.notes.append('battery driver does not build: %s: %s' % (bad[0][0], bad[0][1][:600])); return None
    for a in ASM:
        p = r.get(a)
        if p and p[1] != os.path.join(t, a + '.o'): objs[objs.index(os.path.join(t, a + '.o'))] = p[1]
    out = os.path.join(d, 'drv')
    try: C.run(['clang++', '-fsanitize=address,undefined'] + objs + ['-Wl,-z,noexecstack', '-lyaml-cpp', '-o', out])
    except C.CmdError as e:
        check.notes.append('battery driver does not link: %s' % str(e)[:600]); return None
    return out


class Batt:
    """collects operations with their expected answers, runs them, reports the first wrong answer"""

    def __init__(s, check, drv, name, bound):
        s.ck = check; s.drv = drv; s.name = name; s.bound = bound; s.q = []; s.r = random.Random(C.SEED)

    def op(s, line, want, what=None): s.q.append((line, want, what))

    def run(s, timeout=200):
        if s.drv is None: return False
        inp = '\n'.join(l for l, _, _ in s.q) + '\n'
        p = None
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=6000', UBSAN_OPTIONS='print_stacktrace=0')
        try: p = subprocess.run([s.drv], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace', env=env)
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode(errors='replace').splitlines()
            if len(out) < len(s.q) and timeout > 60:
                # one operation that does not end, or just a slow machine: retry that one alone
                line = s.q[len(out)][0]
                try: subprocess.run([s.drv], input=line + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, env=env)
                except subprocess.TimeoutExpired:
                    s.bad(len(out), 'does not terminate within 60 s', s.q[len(out)][1]); return True
            s.ck.notes.append('battery %s did not finish' % s.name); return False
        out = p.stdout.splitlines()
        for i, (l, w, what) in enumerate(s.q):
            if i >= len(out):
                s.bad(i, 'crash: ' + crash(p.stderr, p.returncode), w); return True
            if out[i] == 'unavailable': continue
            if not (w(out[i]) if callable(w) else out[i] == w):
                s.bad(i, out[i], w); return True
        s.ck.batt(s.name, s.bound, len(s.q))
        return False

    def bad(s, i, got, want):
        l, w, what = s.q[i]
        d = {'operation': l if len(l) < 6000 else l[:6000] + '...', 'expected': 'rejected with an error' if callable(want) else want[:3000], 'got': got[:3000]}
        if what: d['what'] = what
        s.ck.batt(s.name, s.bound, i + 1, d, 'lib/batt.py builds batt/drv*.cpp with the sources of /repo (clang++ %s); feed it the operation line on stdin' % ' '.join(FLAGS))


def crash(err, rc):
    for l in err.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l: return l.strip()[:400]
    return 'exit status %d %s' % (rc, err.strip()[-200:])


def exc(o): return o.startswith('EXC')
