"""C06: selection of the hashing backend."""
import os, subprocess
import z3
from lib import common as C, isa
from lib.common import Ob
from . import spec
from .vals import *
from .mem import fresh
from .ir import Unsupported
from .props import prove

R = z3.Function('cpuid', z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32))      # leaf, subleaf, register


def regs(leaf, sub):
    l = bv(leaf, 32); s = bv(sub, 32)
    return tuple(norm(R(l, s, z3.BitVecVal(k, 32))) for k in range(4))


def asm(ex, st, text, cons, args):
    w = text.split()
    if 'cpuid' not in w: raise Unsupported('inline assembly: ' + text)
    outs = [x[1:] for x in cons.split(',') if x.startswith('=')]
    ins = [x for x in cons.split(',') if not x.startswith(('=', '~'))]
    val = {}
    for c, a in zip(ins, args):
        r = outs[int(c)] if c.isdigit() else c
        val[r] = a
    leaf = val.get('{ax}')
    if leaf is None: raise Unsupported('cpuid without a leaf')
    small = isinstance(leaf, int) and leaf in (0, 1)
    sub = 0 if small else val.get('{cx}', fresh('ecx', 32))        # leaves 0 and 1 have no subleaves
    v = regs(leaf, sub)
    name = {'{ax}': 0, '{bx}': 1, '{cx}': 2, '{dx}': 3}
    out = []
    for o in outs:
        if o in name: out.append(v[name[o]])
        elif o == 'r' and 'xchg' in text: out.append(v[1])
        else: raise Unsupported('cpuid output ' + o)
    return tuple(out)


def vir_cpuid(ex, st, a, c): return regs(a[0], 0)[a[1]]


@prove('C06')
def p06(ck):
    m = spec.compile_unit(ck, 's_hasher')
    ov = [(r'^vir_cpuid$', vir_cpuid)]
    jobs = [(n, lambda n=n: spec.run_spec(m, n, 'spec_' + n, overrides=ov, opts={'asm': asm, 'init_globals': True})) for n in ('implemented', 'best', 'automatic', 'requested', 'none')]
    spec.run_all(ck, jobs)
    try: fs = isa.features(ck)
    except Exception as e:
        ck.add([Ob('instruction-sets/classification', 'unknown', 'disassembly', str(e)[:600])]); return
    for b, f in fs.items():
        for x, ins in sorted(f.items()):
            n = 'instruction-sets/%s-backend-needs-%s' % (b, x)
            if x.startswith('?'): ck.add([Ob(n, 'unknown', 'disassembly', ins)])
            elif x in isa.IMPLIED[b]: ck.add([Ob(n, 'ok', 'disassembly')])
            else:
                ck.report({'kind': 'failed obligation', 'failure': {'what': '%s backend executes %s instructions, which a CPU it is chosen for need not have' % (b, x), 'instruction': ins},
                           'how_to_replay': 'lib/isa.py: disassemble the routine; on a CPU without the extension (qemu-x86_64 -cpu Nehalem) it ends with SIGILL', 'obligation': n})
        if not f: ck.add([Ob('instruction-sets/%s-backend-needs-nothing' % b, 'ok', 'disassembly')])
    ck.assumptions += ['CPUID answers are arbitrary but fixed while the program runs; leaves 0 and 1 have no subleaves.',
                       'Feature implications used for the instruction sets: AVX2 implies AVX; AVX and SHA-NI imply SSSE3 and SSE4.1 (true of every CPU and enforced by hypervisors); operating system support for the AVX state is not part of the property.',
                       'The compiler-generated routine sha256_sse is classified in the object clang builds with the repository\'s Release flags.']
