"""The properties decided by contracts on the C++ sources: which specifications are run, with which hooks, under which assumptions."""
import traceback
import z3
from lib import common as C
from lib.common import Ob
from . import spec, fp
from .vals import *

MEMCAP = '4 KiB'
GENERIC = [
    'The verified text is the LLVM IR that clang 18 -O0 produces from /repo\'s current sources (included verbatim by vir/specs/*.cpp); machine integers are bit vectors, signed overflow, shifts, division and every memory access are obligations.',
    'Trusted: clang\'s lowering, the IR reader and executor in vir/, the solvers (z3, bitwuzla/cvc5 where named), and the models of library operations listed under library_models (vir/models.py); every other library body is executed.',
    'Allocation never fails; no byte vector or string is longer than 2^56 (the address space of the target); addresses of distinct objects are distinct.',
]
PROVE = {}


def prove(*pids):
    def d(f):
        for p in pids: PROVE[p] = f
        return f
    return d


def check(pid):
    ck = C.Check(pid)
    ck.assumptions += GENERIC
    ck.trusted += ['clang 18 -O0 -emit-llvm', 'z3', 'vir/ executor and library models']
    try: PROVE[pid](ck)
    except Exception as e:
        ck.add([Ob('specification/build', 'unknown', 'verifier', '%s: %s' % (type(e).__name__, str(e)[-600:] + traceback.format_exc()[-600:]))])
    try:
        from lib import battdefs
        battdefs.battery(ck, pid)
    except Exception as e:
        ck.notes.append('battery: %s: %s' % (type(e).__name__, str(e)[:400] + traceback.format_exc()[-600:]))
    return ck.finish()


def lemma(ck, name, goal, to=20000):
    """a solver lemma the specifications use"""
    s = z3.Solver(); s.set('timeout', to); s.add(z3.Not(goal))
    r = str(s.check())
    ck.add([Ob('lemma/' + name, {'unsat': 'ok', 'sat': 'refuted'}.get(r, 'unknown'), 'z3')])


# --- C23, C25: validator predicates, integer mathematics ---------------------------------------------------------------------------------
@prove('C23')
def p23(ck):
    m = spec.compile_unit(ck, 's_misc', defs=['S_VALIDATOR'])
    jobs = [(n, lambda n=n: spec.run_spec(m, n, 'spec_' + n)) for n in ('is_active', 'is_slashable', 'is_eligible', 'frame')]
    spec.run_all(ck, jobs)


SQ = z3.Function('square', z3.BitVecSort(64), z3.BitVecSort(64))
M32 = 0xffffffff


def square(ex, st, a):
    """a*a as an uninterpreted function with instances of three lemmas, each discharged separately"""
    seen = st.ghost.get('squares', ())
    f = lin(a)
    st.assume(z3.Implies(z3.ULE(a, M32), z3.ULE(SQ(a), M32 * M32)))
    st.assume(z3.Implies(a == 0, SQ(a) == 0))
    for b in seen:
        e = f.add(lin(b), -1)
        if not e.const(): continue
        if e.c == 1: st.assume(SQ(a) == SQ(b) + 2 * b + 1)
        if e.c == -1: st.assume(SQ(b) == SQ(a) + 2 * a + 1)
    st.ghost['squares'] = seen + (a,)
    return SQ(a)


def mul_square(ex, st, a, b):
    if a.size() != 64 or not a.eq(b): return None
    return square(ex, st, a)


def isqrt_loops(l):
    x = z3.BitVec('x', 64)
    for cell in l.cells.values():
        if cell.bits() != 64 or cell.form[0] != 'free': continue

        def inv(st, k, cell=cell):
            r = bv(cell.get(st), 64); r1 = norm(r + 1)
            if isinstance(r1, int): return None
            s1 = square(l.ex, st, r1); square(l.ex, st, r)
            return z3.Or(z3.UGE(r, M32), z3.UGT(s1, x))
        l.invs.append(('(%s+1)^2 > x or %s >= 2^32-1' % (cell, cell), inv))
        l.measures.append(('value', lambda st, cell=cell: cell.get(st)))
        l.measures.append(('2^32-1 - value', lambda st, cell=cell: M32 - bv(cell.get(st), 64)))


@prove('C25')
def p25(ck):
    m = spec.compile_unit(ck, 's_misc', defs=['S_MATH'])
    b, n = z3.Ints('b n')
    lemma(ck, 'square-of-successor', (b + 1) * (b + 1) == b * b + 2 * b + 1)
    lemma(ck, 'square-of-32-bit-value', z3.Implies(z3.And(0 <= b, b <= M32), z3.And(0 <= b * b, b * b <= M32 * M32)))
    ck.assumptions.append('Floating-point operations are uninterpreted: the estimate integer_squareroot starts from is an arbitrary 64-bit value.')
    ck.assumptions.append('64-bit squares are an uninterpreted function constrained by instances of the two square lemmas (proved over the integers, transferred modulo 2^64).')
    jobs = [('log2ceil', lambda: spec.run_spec(m, 'log2ceil', 'spec_log2', opts={'fp': fp.handler})),
            ('integer_squareroot', lambda: spec.run_spec(m, 'integer_squareroot', 'spec_isqrt', opts={'fp': fp.handler, 'loops': [isqrt_loops], 'mul': mul_square,
                'noaffine': lambda c, cell: 'squareroot' in c.ex.dem(c.key[0])}))]
    spec.run_all(ck, jobs)


# --- C24 ---------------------------------------------------------------------------------------------------------------------------------
def slot_at(ex, f):
    """element content of a vector of eth::Slot whose i-th value is f(i)"""
    vt = [n for n in ('_ZTVN3eth4SlotE',)][0]
    return CFn(lambda i: SV({0: (8, Ptr('@' + vt, 16)), 8: (8, norm(f(bv(i, 64))))}))


def slots_hook(increasing):
    from .models import inp, uf, new_vec

    def h(ex, st, p):
        n = inp(ex, 'n', 64); st.assume(z3.ULT(n, 1 << 59))
        f = uf(ex, 'index', (64, 64), 64)
        st.mem[p.o]
        ex_oid = new_vec(ex, st, p, 16, n, slot_at(ex, lambda i: f(i, z3.BitVecVal(0, 64))), 'indices')
        if increasing:
            def rd(ex, st, o, i, v):
                if o.name != 'indices': return
                i = bv(i, 64); z = z3.BitVecVal(0, 64)
                st.assume(z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(i + 1, n)), z3.ULT(f(i, z), f(i + 1, z))))
            ex.onread.append(rd)
    return h


@prove('C24')
def p24(ck):
    m = spec.compile_unit(ck, 's_slash')
    hooks = {'indices': slots_hook(False), 'indices_increasing': slots_hook(True)}
    jobs = [('is_slashable', lambda: spec.run_spec(m, 'is_slashable', 'spec_slashable', opts={'unroll': 64})),
            ('is_valid/sound', lambda: spec.run_spec(m, 'is_valid/sound', 'spec_valid', opts={'hooks': hooks, 'skolems': ['q']})),
            ('is_valid/complete', lambda: spec.run_spec(m, 'is_valid/complete', 'spec_valid_complete', opts={'hooks': hooks})),
            ('is_valid/empty', lambda: spec.run_spec(m, 'is_valid/empty', 'spec_valid_empty', opts={'hooks': hooks}))]
    spec.run_all(ck, jobs)


# --- C19, C18 ----------------------------------------------------------------------------------------------------------------------------
BYTES_N = (1, 3, 4, 8, 20, 32, 48, 96)
BITV_N = tuple(range(1, 41)) + (63, 64, 65, 100, 127, 128, 129)


def codec_job(m, e): return (e, lambda: spec.run_spec(m, e, 'spec_' + e, opts={'unroll': 256}))


@prove('C19')
def p19(ck):
    m = spec.compile_unit(ck, 's_codec')
    es = ['slot_enc', 'slot_dec', 'slot_hash', 'slot_conv', 'bool_enc', 'bool_dec', 'bytes_int'] + ['bytes_%s_%d' % (d, n) for d in ('enc', 'dec') for n in BYTES_N]
    spec.run_all(ck, [codec_job(m, e) for e in es])
    ck.assumptions.append('Bytes<N> is verified for the instances N in %s (all that occur in the containers, and 3).' % (BYTES_N,))


@prove('C18')
def p18(ck):
    m = spec.compile_unit(ck, 's_codec')
    es = ['bitv_%s_%d' % (d, n) for d in ('enc', 'dec') for n in BITV_N]
    spec.run_all(ck, [codec_job(m, e) for e in es])
    ck.assumptions.append('Bitvector<N> is verified for the instances N in %s, each for every content and every input; other N only by the bounded runs.' % (BITV_N,))


# --- C17 ---------------------------------------------------------------------------------------------------------------------------------
def bits_hook(name, lenname):
    from .models import inp, uf, vb_new

    def h(ex, st, p):
        n = inp(ex, lenname, 64); st.assume(z3.ULT(n, 1 << 59))
        f = uf(ex, name, (64, 64), 0)
        vb_new(ex, st, p, n, CFn(lambda i: norm(f(bv(i, 64), z3.BitVecVal(0, 64)))), name)
    return h


def packed(l):
    """content candidate of a byte vector being filled with bits: byte j after the first k bits were set"""
    from .models import uf
    f = uf(l.ex, 'bit', (64, 64), 0); z = z3.BitVecVal(0, 64)

    def g(j, k):
        j = bv(j, 64); k = bv(k, 64)
        bs = []
        for b in range(8):
            i = j * 8 + b
            bs.append(z3.If(z3.And(z3.ULT(i, k), f(i, z)), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        return z3.Concat(*reversed(bs))
    l.contents.append(('the first k bits, packed', g))

    def ge(j, k, e): return norm(g(j, k) | bv(e, 8))
    ge.entry = True
    l.contents.append(('the first k bits, packed, besides what was set before the loop', ge))


@prove('C17')
def p17(ck):
    m = spec.compile_unit(ck, 's_bitl')
    hooks = {'bits': bits_hook('bit', 'n'), 'old': bits_hook('oldbit', 'oldn')}
    spec.run_all(ck, [('serialize', lambda: spec.run_spec(m, 'serialize', 'spec_enc', opts={'hooks': hooks, 'loops': [packed], 'skolems': ['q']})),
                      bitl_dec(m)])


def bitl_dec(m):
    hooks = {'old': bits_hook('oldbit', 'oldn')}
    return ('bitlist-deserialize', lambda: spec.run_spec(m, 'deserialize', 'spec_dec', opts={'hooks': hooks, 'skolems': ['q'], 'unroll': 16}))


# --- C07, C08, C09 -----------------------------------------------------------------------------------------------------------------------
def tree_opts(**kw):
    from . import merk
    return dict({'hooks': merk.HOOKS, 'loops': [merk.merk_loops], 'seqfacts': merk.seqfacts, 'init_globals': True, 'after_init': [merk.zero_tables], 'budget': 400, 'timeout': 25000, 'first': 300}, **kw)


def tree_jobs(ck, m, want, others):
    from . import merk
    merk.lemmas(ck, lambda *a: lemma(*a))
    js = [(n, lambda n=n: spec.run_spec(m, n, 'spec_' + n, overrides=merk.OV, opts=tree_opts())) for n in others]
    return js + [('tree/' + c, lambda c=c: spec.run_spec(m, 'tree/' + c, 'spec_tree', overrides=merk.OV, opts=tree_opts(case=c))) for c in merk.CASES if want(c)]


@prove('C07')
def p07(ck):
    m = spec.compile_unit(ck, 's_ht')
    spec.run_all(ck, tree_jobs(ck, m, lambda c: 'deeper' not in c, ('tree_default', 'tree_error')))


@prove('C08')
def p08(ck):
    m = spec.compile_unit(ck, 's_ht')
    spec.run_all(ck, tree_jobs(ck, m, lambda c: 'no limit' not in c, ('tree_error',)))


@prove('C09')
def p09(ck):
    from . import merk
    m = spec.compile_unit(ck, 's_ht')
    spec.run_all(ck, [(n, lambda n=n: spec.run_spec(m, n, 'spec_' + n, overrides=merk.OV, opts=dict(tree_opts(), loops=[merk.pack_loops], seqfacts=None))) for n in ('pack', 'mix')] +
                 [('bytes_tree', lambda: spec.run_spec(m, 'bytes_tree', 'spec_bytes_tree', overrides=merk.OVB + merk.OV, opts=dict(tree_opts(), loops=[merk.pack_loops], seqfacts=None)))])
    ck.assumptions.append('HashTree(bytes, limit) is verified against the contract of HashTree(chunks, limit) (C07).')


from . import p_hasher, p_cont, p_gen, p_list, p_text, p_eq, p_acc
