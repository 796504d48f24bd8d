"""Checks C01-C05: the SHA-256 backends, verified from the assembled objects."""
import os, json, subprocess, time
from . import common as C
from vasm import asm, exec as E, terms as T, lemmas

SPEC = [('sha256_avx_one_block', 'sha256_1_avx', '1'), ('sha256_avx', 'sha256_4_avx', 'n'),
        ('sha256_avx2', 'sha256_8_avx2', 'n'), ('sha256_shani', 'sha256_shani', 'n')]
SSE = 'ssz::Hasher::sha256_sse(unsigned char*, unsigned char const*, unsigned long)'
CXX = ['clang++', '-DCUSTOM_HASHER', '-O3', '-m64', '-ffast-math', '-std=gnu++20']
NEED = {'C01': ['one', 'sse'], 'C02': ['one', 'avx'], 'C03': ['one', 'avx', 'avx2'], 'C04': ['sha'], 'C05': ['one', 'sse', 'avx', 'avx2', 'sha']}
BACK = {'C01': ['one', 'sse'], 'C02': ['avx', 'one'], 'C03': ['avx2'], 'C04': ['sha'], 'C05': ['one', 'sse', 'avx', 'avx2', 'sha']}

FUNC_KEYS = ('/digest', 'digest-complete', 'output-position', 'all-blocks-done', 'out-argument', 'in-argument', 'blocks-available',
             'count-in-range', '-progress', 'invariant', 'body-reachable', 'some-path-returns', 'precondition')


def is_functional(name): return any(k in name for k in FUNC_KEYS)


def abi_ob(name):
    return not any(k in name for k in ('/digest', 'digest-complete', 'output-position'))


def build_objs(tmp):
    objs, errs = {}, {}
    for stem, symb, kind in SPEC:
        try: objs[stem] = asm.assemble(stem, tmp)
        except asm.BuildError as e: errs[stem] = str(e)
    try:
        o = os.path.join(tmp, 'hasher.o')
        C.run(CXX + ['-I', C.REPO, '-c', os.path.join(C.REPO, 'ssz/hasher.cpp'), '-o', o])
        objs['hasher'] = o
    except C.CmdError as e: errs['hasher'] = str(e)
    return objs, errs


def verify_one(path, symbol, kind, preserves, label):
    t = time.time()
    T.reset()
    contracts = {}
    for stem, s, k in SPEC:
        r = E.Routine(s, k)
        r.preserves |= preserves.get(s, set())
        contracts[s] = r
    o = asm.Obj(path)
    v = E.Verifier(o, symbol, kind, contracts, label=label)
    try:
        obs = v.verify()
    except T.Unsupported as u:
        obs = v.obs + [E.Ob(label + '/supported', 'unknown', 'exec', str(u))]
    pres = set()
    if v.exit_regs:
        pres = set(r for r in v.exit_regs[0] if all(x[r] for x in v.exit_regs))
    return {'obs': [x.asdict() for x in obs], 'solver': v.solver_time, 'queries': v.queries, 'preserves': pres, 'wall': time.time() - t,
            'insns': sorted(v.insn_seen), 'calls': sorted(set(v.calls)), 'loops': v.loops_abstracted, 'unrolled': len(v.loops_unrolled)}


def demangled(path):
    out = C.run(['nm', '--defined-only', path])
    syms = [l.split()[-1] for l in out.splitlines() if l.split()]
    d = C.run(['c++filt'] + syms).splitlines()
    return dict(zip(d, syms))


def verify(check, needs):
    """run the asm verifier on every routine the property needs"""
    tmp = check.tmp
    objs, errs = build_objs(tmp)
    check.objs, check.errs = objs, errs
    preserves = {}
    todo = {'one': ('sha256_avx_one_block', 'sha256_1_avx', '1'), 'avx': ('sha256_avx', 'sha256_4_avx', 'n'),
            'avx2': ('sha256_avx2', 'sha256_8_avx2', 'n'), 'sha': ('sha256_shani', 'sha256_shani', 'n')}
    results = {}

    def job(k):
        def f():
            if k == 'sse':
                d = demangled(objs['hasher'])
                if SSE not in d: raise T.Unsupported('function %s not found in hasher.o' % SSE)
                return verify_one(objs['hasher'], d[SSE], 'n', preserves, 'ssz::Hasher::sha256_sse')
            stem, s, kind = todo[k]
            if stem not in objs: raise T.Unsupported('does not assemble: ' + errs[stem])
            return verify_one(objs[stem], s, kind, preserves, s)
        return f
    # the single-block routine first: its verified register effect is part of the contract its callers use
    first = [k for k in needs if k in ('one', 'sha')]
    r = C.parallel([(k, job(k)) for k in first])
    results.update(r)
    if 'one' in r and r['one'][0] == 'ok': preserves['sha256_1_avx'] = r['one'][1]['preserves']
    rest = [k for k in needs if k not in first]
    results.update(C.parallel([(k, job(k)) for k in rest]))
    for k in needs:
        st, v = results[k]
        label = 'ssz::Hasher::sha256_sse' if k == 'sse' else todo[k][1]
        if st != 'ok':
            check.obs.append(C.Ob(label + '/supported', 'unknown', 'exec', v)); continue
        check.solver_time += v['solver']; check.queries += v['queries']
        check.functions.append({'function': label, 'obligations': len(v['obs']), 'wall_s': round(v['wall'], 2), 'instructions_kinds': len(v['insns']),
                                'loops_cut_by_invariant': v['loops'], 'fixed_count_loops_executed': v['unrolled'], 'calls_by_contract': v['calls']})
        for o in v['obs']:
            yield k, C.Ob(**o)


def build_driver(check, static_ro):
    objs = check.objs
    if len(objs) < 5: raise C.CmdError('sources do not build: %s' % check.errs)
    out = os.path.join(check.tmp, 'drv_ro' if static_ro else 'drv')
    ol = []
    for stem, _, _ in SPEC:
        p = objs[stem]
        if static_ro:
            q = p[:-2] + '.ro.o'
            C.run(['objcopy', '--rename-section', '.data=.rodata.asm,alloc,load,readonly,data,contents',
                   '--rename-section', '.bss=.rodata.bss,alloc,load,readonly,data,contents', p, q])
            p = q
        ol.append(p)
    C.run(CXX + ['-w', '-I', C.REPO, '-no-pie', os.path.join(C.VERIF, 'batt/sha_drv.cpp'), objs['hasher']] + ol + ['-Wl,-z,noexecstack', '-o', out])
    return out


def has_cpu(flag):
    try: return flag in open('/proc/cpuinfo').read().split()
    except OSError: return False


def emulator(backend):
    need = {'sha': 'sha_ni', 'avx2': 'avx2'}.get(backend, 'avx')
    return [] if has_cpu(need) and has_cpu('avx') else ['qemu-x86_64', '-cpu', 'max']


def battery(check, backend, mode, rounds):
    try:
        drv = build_driver(check, mode == 'abi')
    except C.CmdError as e:
        check.notes.append('battery not built: %s' % e); return
    cmd = emulator(backend) + [drv, backend, mode, str(C.SEED), str(rounds)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        check.notes.append('battery %s %s did not finish' % (backend, mode)); return
    out = p.stdout
    bad = None; cases = 0
    for l in out.splitlines():
        if l.startswith('BAD '):
            try: bad = json.loads(l[4:])
            except ValueError: bad = {'class': '?', 'what': l[4:]}
        if l.startswith('OK '): cases = int(l.split('cases=')[1].split()[0])
    if bad is None and not out.strip():
        if p.returncode < 0: bad = {'class': 'memory', 'backend': backend, 'what': 'the driver was killed by signal %d' % -p.returncode}
        else: check.notes.append('battery %s %s gave no answer (exit %d)' % (backend, mode, p.returncode)); return
    how = 'build batt/sha_drv.cpp with ssz/hasher.cpp and the assembled ssz/*.asm%s, run: sha_drv %s %s %d %d' % (
        ' (their .data/.bss made read-only)' if mode == 'abi' else '', backend, mode, C.SEED, rounds)
    check.batt('%s/%s' % (backend, mode), {'digest': 'block counts 0..36, 40, 47, 63, 64, 65, 127, 257; random, zero, all-ones and sparse data', 'abi': 'the same block counts, 8 misalignments, guard pages on both sides, read-only static data',
               'large': 'block counts 2^28+1 .. 2^32+4, each for about a second'}[mode], cases, bad, how)


def check_sha(pid):
    ck = C.Check(pid)
    deep = C.TIER == 'thorough'
    funct = pid != 'C05'
    L = lemmas.discharge(ck.tmp, both=True)
    ck.obs += L['obs']; ck.solver_time += L['time']; ck.queries += L['queries']
    other = 0; dead = False
    for k, o in verify(ck, NEED[pid]):
        keep = is_functional(o.name) if funct else abi_ob(o.name)
        if not funct and '/digest[' in o.name: continue
        if o.status != 'ok' and not keep:
            # belongs to another property, but the path ends there: this property is undecided beyond it
            o = C.Ob(o.name, 'unknown', o.backend, 'path not followed further: ' + o.detail); keep = True
        if keep: ck.obs.append(o)
        else: other += 1
    ck.notes.append('%d further obligations of the same runs belong to %s' % (other, 'C05' if funct else 'C01-C04'))
    proved = all(o.status == 'ok' for o in ck.obs)
    for b in BACK[pid]:
        if funct:
            battery(ck, b, 'digest', 400 if deep else 30)
            if b != 'one' and (not proved or deep): battery(ck, b, 'large', 1)
        else:
            battery(ck, b, 'abi', 200 if deep else 15)
            if b != 'one' and not proved: battery(ck, b, 'large', 1)
    ck.trusted = ['vasm instruction semantics (vasm/insns.py), cross-checked on every run by executing the same routines on this CPU or qemu against an independent SHA-256',
                  'objdump decoding of the object files yasm and clang produced', 'z3 (linear integer obligations), canonical-form comparison (vasm/terms.py) whose rewriting rules are the lemmas discharged by z3 and cvc5 on this run',
                  'SHA-256 specification function (vasm/terms.py: constants derived from primes, compared with hashlib on every run)']
    ck.assumptions = ['input and output buffers do not overlap each other or the routine\'s stack area (64 KB below the stack pointer)', 'n*64 bytes fit the address space (n <= 2^57, buffers below 2^47)',
                      'the stack pointer is 8 mod 16 on entry (System V ABI)', 'the direction flag is clear on entry',
                      'CPU supports the instructions of the backend']
    if 'sse' in NEED[pid]: ck.assumptions.append('ssz::Hasher::sha256_sse is verified in the machine code clang emits with the repository\'s Release flags; other compilers are not covered')
    return ck.finish()
