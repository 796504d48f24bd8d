"""C22: two values compare equal exactly when they hold the same content."""
import os, re
import z3
from lib import ssz
from lib.ssz import Lst, BitL
from . import spec, p_list, p_cont
from .vals import *
from .mem import *
from .ir import Unsupported
from .models import *
from .props import prove
from .p_list import boolz, vt, counters

Z = z3.BitVecVal
AB = ('a', 'b')


def bits(nm):
    def h(ex, st, p):
        n = inp(ex, nm + '.size', 64); st.assume(z3.ULT(n, 1 << 48)); f = uf(ex, nm, (64, 64), 0)
        vb_new(ex, st, p, n, CFn(lambda i: norm(f(bv(i, 64), Z(0, 64)))), nm)
    return h


def verdict(ex, st, what, r, eq, n, m, limits):
    """the result is the equality of lengths, limits and contents; eq(i): the elements at i are equal"""
    R = boolz(r); q = inp(ex, 'q', 64)
    if limits:
        # values of the same type and limit
        same_l = inp(ex, 'same-limit', 0)
        st = ex.under(st, same_l)
        if st is None: return
    s = ex.under(st, R)
    if s is not None:
        ex.prove(s, norm2(bv(n, 64) == bv(m, 64)), what + '::operator==/ensures-equal-implies-same-length')
        ex.prove(s, norm2(z3.Implies(z3.ULT(q, bv(n, 64)), eq(q))), what + '::operator==/ensures-equal-implies-same-elements')
    s = ex.under(st, z3.Not(R))
    if s is not None:
        ws = [s.ghost['differs']] if 'differs' in s.ghost else []
        ws += counters(s) + [Z(i, 64) for i in range(4)]
        ex.prove(s, norm2(z3.Or(bv(n, 64) != bv(m, 64), *[z3.And(z3.ULT(bv(w, 64), bv(n, 64)), z3.Not(eq(bv(w, 64)))) for w in ws])), what + '::operator==/ensures-different-implies-a-difference')


def h_term(ex, st): st.terms = list(st.terms) + [inp(ex, 'q', 64)]


def h_listeq(ex, st, nm, r):
    f, g = [uf(ex, x, (64, 64), 0) for x in AB]
    verdict(ex, st, cstr(ex, st, nm), r, lambda i: f(i, Z(0, 64)) == g(i, Z(0, 64)), inp(ex, 'a.size', 64), inp(ex, 'b.size', 64), True)


# --- sequences of opaque elements ---------------------------------------------------------------------------------------------------------
def VAL(ex, w): return uf(ex, 'value-' + AB[w], (64,), 64)


def h_elements2(ex, st, v, w):
    n = inp(ex, AB[w] + '.size', 64); st.assume(z3.ULT(n, 1 << 48)); f = VAL(ex, w)
    new_vec(ex, st, v, 16, n, CFn(lambda i: SV({0: (8, vt(ex)), 8: (8, norm(f(bv(i, 64))))})), 'elements')


def h_vector2(w):
    def h(ex, st, z, n):
        f = VAL(ex, w); p = p_list.h_vector(ex, st, z, n)
        name = p_list.table(ex, 'eth::VectorFixedSizedParts<EL<%dul>, %dul>' % (p_list.K(ex), n))

        def get(i):
            if isinstance(i, int): return Ptr('@' + name, 16) if i == 0 else (vt(ex) if i & 1 else norm(f(Z((i - 2) // 2, 64))))
            l = lin(i); d = Lin(l.c - l.c % 2, l.t).div(2)
            if d is None: raise Unsupported('word of a vector')
            if l.c & 1: return vt(ex)
            return norm(f(bv(d.add(Lin(-1)).expr(), 64)))
        st.w(p.o).content = CFn(get)
        st.ghost['count'] = n
        return p
    return h


def h_eq(ex, st, nm, r):
    f, g = VAL(ex, 0), VAL(ex, 1); c = st.ghost.get('count')
    n, m = (c, c) if c else (inp(ex, 'a.size', 64), inp(ex, 'b.size', 64))
    verdict(ex, st, cstr(ex, st, nm), r, lambda i: f(i) == g(i), n, m, not c)


def o_eq(ex, st, a, c):
    """contract of the element type's equality"""
    return norm(bv(p_list.ident(ex, st, a[0]), 64) == bv(p_list.ident(ex, st, a[1]), 64))


# --- containers ----------------------------------------------------------------------------------------------------------------------------
def gen(S):
    o = []
    for n, t in S.items():
        fs = [f for f, _ in t.fields]; k = len(fs)
        o.append('namespace f_%s { %s }' % (n, ' '.join('ACC(%s)' % f for f in fs)))
        w = lambda v: 'const ssz::Container* w%s[] = {%s};' % (v, ', '.join('&f_%s::%s(%s)' % (n, f, v) for f in fs))
        o.append('SPEC spec_eq_%s() { Raw<%s> ra, rb; const %s &a = *ra, &b = *rb; %s %s vir_hook2("fields", wa, %d); vir_hook2("fields", wb, %d); vir_hook2("conteq", "%s", a == b); }' % (n, n, n, w('a'), w('b'), k, k, n))
    return '\n'.join(o) + '\n'


def h_fields(ex, st, want, n): st.ghost['fields'] = st.ghost.get('fields', ()) + (tuple(ex.load(st, want.at(8 * i), 8) for i in range(n)),)


def EQF(ex, i): return inp(ex, 'field%d-equal' % i, 0)


def f_eq(ex, st, a, c):
    A, B = st.ghost['fields']
    for i in range(len(A)):
        if (same(a[0], A[i]) and same(a[1], B[i])) or (same(a[0], B[i]) and same(a[1], A[i])): return EQF(ex, i)
        if same(a[0], a[1]) and (same(a[0], A[i]) or same(a[0], B[i])): return 1
    raise Unsupported('comparison of %s and %s' % (a[0], a[1]))


def h_conteq(ex, st, nm, r):
    A, B = st.ghost['fields']
    n = cstr(ex, st, nm); R = boolz(r)
    for i in range(len(A)):
        s = ex.under(st, R)
        if s is not None: ex.prove(s, EQF(ex, i), n + '::operator==/ensures-equal-implies-every-field-is', 'field %d' % i)
    s = ex.under(st, z3.Not(R))
    if s is not None: ex.prove(s, z3.Not(z3.And(*[EQF(ex, i) for i in range(len(A))])), n + '::operator==/ensures-different-implies-some-field-is')


HOOKS = {'a': bits('a'), 'b': bits('b'), 'term': h_term, 'listeq': h_listeq, 'elements2': h_elements2, 'vector2a': h_vector2(0), 'vector2b': h_vector2(1), 'eq': h_eq, 'fields': h_fields, 'conteq': h_conteq}
VEQ = [(32, 1), (32, 2), (32, 33), (32, 64), (32, 8192), (8, 8192), (40, 5)]
LEQ = [('lst8', 8), ('lst32', 32), ('lst121', 121), ('vlst', 0)]
BY = (1, 3, 4, 8, 20, 32, 48, 96)
BVN = (1, 4, 7, 8, 9, 16, 21, 33)


def eq_of(n):
    """equality of every type but the container n itself"""
    return [(r'^(bool )?eth::(?!%s::)[^()]*::operator==(<\d+ul>)?\(' % n, f_eq)]


@prove('C22')
def p22(ck):
    m = spec.compile_unit(ck, 's_eq'); l = spec.compile_unit(ck, 's_list')
    js = [(n, lambda n=n: spec.run_spec(m, n, 'spec_' + n, opts={'hooks': HOOKS, 'skolems': ['q'], 'unroll': 100})) for n in ['slot', 'boolean', 'bitl'] + ['bytes_%d' % n for n in BY] + ['bitv_%d' % n for n in BVN]]
    for k, n in VEQ:
        e = 'vec_eq_%d_%d' % (k, n)
        js.append((e, lambda e=e, k=k, n=n: spec.run_spec(l, e, 'spec_' + e, overrides=[(r'^EL<\d+ul>::operator==\(', o_eq)], opts={'hooks': HOOKS, 'skolems': ['q'], 'K': k, 'N': n, 'unroll': 4, 'maxiter': 4})))
    for e, k in LEQ:
        js.append((e + '_eq', lambda e=e, k=k: spec.run_spec(l, e + '_eq', 'spec_%s_eq' % e, overrides=[(r'^EL<\d+ul>::operator==\(', o_eq)], opts={'hooks': HOOKS, 'skolems': ['q'], 'K': k, 'unroll': 4})))
    for pr in ('minimal', 'mainnet'):
        d = os.path.join(ck.tmp, 'geneq_' + pr); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'gen.inc'), 'w').write(gen(ssz.schema(pr)))
        c = spec.compile_unit(ck, 's_cont', pr, defs=['EQ'], inc=['-I' + d])
        for n in ssz.schema(pr):
            js.append(('%s/%s' % (pr, n), lambda c=c, n=n: spec.run_spec(c, n, 'spec_eq_' + n, overrides=eq_of(n), opts={'hooks': HOOKS, 'unroll': 64})))
    spec.run_all(ck, js)
    ck.assumptions += ['Elements of vectors and lists are compared by the equality of the element type, which enters by its contract (equal exactly when the values are); the containers\' fields likewise.',
                       'std::vector<bool> comparison is modelled (equal lengths and bits); std::equal over elements is executed, its loop by a checked invariant.']
