"""C11, C12, C13, C16: the generic container operations for an arbitrary number of fields of arbitrary kinds; the loops over fields are cut."""
import z3
from . import spec
from .vals import *
from .mem import *
from .ir import Unsupported
from .models import *
from .p_gen import TREE, SLOT, returned_tree, at, itp
from .p_list import slice_, counters, boolz, norm_

Z = z3.BitVecVal
def N(ex): return inp(ex, 'fields', 64)
def V(ex, i): return uf(ex, 'variable', (64,), 0)(bv(i, 64))                # field i is of variable size
def S(ex, i): return uf(ex, 'length', (64,), 64)(bv(i, 64))                 # length of its encoding
def ENC(ex): return uf(ex, 'encoding', (64, 64), 8)                         # j-th byte of the encoding of field i
def OK(ex): return uf(ex, 'accepts', (64, 64, 64), 0)                       # field i accepts the bytes [a, b) of the input
def F(ex, i): return uf(ex, 'position', (64,), 64)(bv(i, 64))               # of field i in the fixed part: sum over the fields before it
def Q(ex, i): return uf(ex, 'variable-length-before', (64,), 64)(bv(i, 64))
def HV(ex, i): return uf(ex, 'variable-field-before', (64,), 0)(bv(i, 64))
def LV(ex, i): return uf(ex, 'last-variable-field-before', (64,), 64)(bv(i, 64))
def NV(ex, i): return uf(ex, 'next-variable-field', (64,), 64)(bv(i, 64))
def FIXB(ex): return uf(ex, 'fixed-part', (64,), 8)
def VARB(ex): return uf(ex, 'variable-part', (64,), 8)
def IN(ex): return uf(ex, 'in', (64,), 8)
def LN(ex): return inp(ex, 'in.size', 64)


def word(v, b): return z3.If(b == 0, z3.Extract(7, 0, v), z3.If(b == 1, z3.Extract(15, 8, v), z3.If(b == 2, z3.Extract(23, 16, v), z3.Extract(31, 24, v))))


def O(ex, i):
    """the offset that the input holds for field i"""
    f = IN(ex); p = F(ex, i)
    return z3.ZeroExt(32, z3.Concat(*[f(norm_(p + b)) for b in (3, 2, 1, 0)]))


def NX(ex, i): return z3.If(NV(ex, i) == N(ex), LN(ex), O(ex, NV(ex, i)))


def step(ex, i):
    """defining equations of the sums and of the links at i"""
    n = N(ex); i = bv(i, 64); j = norm_(i + 1); v = V(ex, i)
    return z3.Implies(z3.ULT(i, n), z3.And(z3.Or(v, z3.UGE(S(ex, i), 1)), z3.ULT(S(ex, i), 1 << 32), F(ex, j) == F(ex, i) + z3.If(v, Z(4, 64), S(ex, i)), Q(ex, j) == Q(ex, i) + z3.If(v, S(ex, i), Z(0, 64)),
                                           HV(ex, j) == z3.Or(HV(ex, i), v), LV(ex, j) == z3.If(v, i, LV(ex, i)), z3.Implies(z3.And(v, HV(ex, i)), NV(ex, LV(ex, i)) == i)))


def facts(ex, ks):
    n = N(ex); z = Z(0, 64)
    fs = [F(ex, z) == 0, Q(ex, z) == 0, z3.Not(HV(ex, z)), z3.ULT(n, 1 << 30), z3.ULT(F(ex, n), 1 << 32), z3.ULT(F(ex, n) + Q(ex, n), 1 << 32), z3.ULT(Q(ex, n), 1 << 32), z3.Implies(HV(ex, n), NV(ex, LV(ex, n)) == n)]
    ks = [bv(k, 64) for k in ks]; es = ks + [norm_(k + 1) for k in ks] + [n]
    for k in ks:
        fs.append(step(ex, k))
        fs.append(z3.Implies(z3.And(HV(ex, k), z3.ULE(k, n)), z3.And(z3.ULT(LV(ex, k), k), V(ex, LV(ex, k)))))
        for j in es: fs.append(z3.Implies(z3.And(z3.ULT(k, j), z3.ULE(j, n), V(ex, k)), z3.And(HV(ex, j), z3.UGE(LV(ex, j), k))))
    for i in ks + [norm_(k + 1) for k in ks]:
        for j in es:
            if i is not j: fs.append(z3.Implies(z3.And(z3.ULE(i, j), z3.ULE(j, n)), z3.And(z3.ULE(F(ex, i), F(ex, j)), z3.ULE(Q(ex, i), Q(ex, j)))))
    return z3.And(*fs)


def lemmas(ck, lemma):
    p = z3.Function('p', z3.IntSort(), z3.IntSort()); i, j = z3.Ints('i j'); l = z3.Function('l', z3.IntSort(), z3.IntSort())
    lemma(ck, 'sums-over-fields-are-monotone/step', z3.Implies(z3.And(0 <= i, i <= j, p(i) <= p(j), p(j + 1) == p(j) + l(j), l(j) >= 0), p(i) <= p(j + 1)))
    hv = z3.Function('hv', z3.IntSort(), z3.BoolSort()); lv = z3.Function('lv', z3.IntSort(), z3.IntSort()); v = z3.Function('v', z3.IntSort(), z3.BoolSort())
    def inv(i): return z3.Implies(hv(i), z3.And(0 <= lv(i), lv(i) < i, v(lv(i))))
    d = z3.And(hv(i + 1) == z3.Or(hv(i), v(i)), lv(i + 1) == z3.If(v(i), i, lv(i)))
    lemma(ck, 'last-variable-field-is-one/base', z3.Implies(z3.Not(hv(0)), inv(0)))
    lemma(ck, 'last-variable-field-is-one/step', z3.Implies(z3.And(0 <= i, inv(i), d), inv(i + 1)))
    # the next variable field is well defined: no two variable fields (or the end) have the same predecessor
    lemma(ck, 'predecessors-differ/step', z3.Implies(z3.And(0 <= i, i < j, v(i), z3.Or(j == i + 1, z3.And(hv(j), lv(j) >= i)), hv(j + 1) == z3.Or(hv(j), v(j)), lv(j + 1) == z3.If(v(j), j, lv(j)), d), z3.And(hv(j + 1), lv(j + 1) >= i)))


def roundtrip(ck, lemma):
    """the layout of serialize_ meets what deserialize_ asks for, and gives every field its own encoding"""
    I = z3.IntSort(); B = z3.BoolSort(); i, j, n = z3.Ints('i j n')
    q, s, lv, f = [z3.Function(x, I, I) for x in ('q', 's', 'lv', 'f')]; hv, v = [z3.Function(x, I, B) for x in ('hv', 'v')]
    d = z3.And(s(j) >= 0, q(j + 1) == q(j) + z3.If(v(j), s(j), 0), hv(j + 1) == z3.Or(hv(j), v(j)), lv(j + 1) == z3.If(v(j), j, lv(j)))
    def first(j): return z3.Implies(z3.Not(hv(j)), q(j) == 0)
    def link(j): return z3.Implies(hv(j), q(j) == q(lv(j)) + s(lv(j)))
    lemma(ck, 'nothing-before-the-first-variable-field/base', z3.Implies(q(0) == 0, first(0)))
    lemma(ck, 'nothing-before-the-first-variable-field/step', z3.Implies(z3.And(d, first(j)), first(j + 1)))
    lemma(ck, 'variable-fields-are-adjacent/base', z3.Implies(z3.Not(hv(0)), link(0)))
    lemma(ck, 'variable-fields-are-adjacent/step', z3.Implies(z3.And(d, link(j)), link(j + 1)))
    o = lambda x: f(n) + q(x); L = f(n) + q(n); nx = z3.If(j == n, L, o(j))
    lemma(ck, 'encoding-is-accepted', z3.Implies(z3.And(0 <= i, i < j, j <= n, v(i), hv(j), lv(j) == i, link(j), first(i), s(i) >= 0, q(j) <= q(n)), z3.And(nx - o(i) == s(i), nx <= L, z3.Implies(z3.Not(hv(i)), o(i) == f(n)))))
    lemma(ck, 'encoding-without-variable-fields-has-nothing-left-over', z3.Implies(z3.And(z3.Not(hv(n)), first(n)), L == f(n)))


def h_parts(ex, st, v):
    n = N(ex); q = inp(ex, 'q', 64)
    st.assume(facts(ex, [q]))
    new_vec(ex, st, v, 8, n, CFn(lambda i: Ptr(Elem('part', i), 0)), 'parts')


def vcall(ex, st, f, args, rt):
    w = SLOT.get(f.slot); i = bv(f.e.idx, 64); n = N(ex)
    var = ex.split(st, V(ex, i))
    st.assume(step(ex, i))
    if w == 'get_ssz_size': return 0 if var else norm(S(ex, i))
    if w == 'serialize':
        c = ENC(ex); new_vec(ex, st, args[0], 1, norm(S(ex, i)), CFn(lambda j: norm(c(i, bv(j, 64)))), 'field'); return None
    if w == 'deserialize':
        lo, hi = slice_(ex, st, args[1], args[2]); lo = bv(lo, 64); hi = bv(hi, 64)
        if var: ok = z3.And(lo == O(ex, i), hi == NX(ex, i))
        else: ok = z3.And(lo == F(ex, i), hi - lo == S(ex, i))
        ex.prove(st, norm2(ok), 'deserialize_/ensures-field-gets-its-own-slice', 'variable' if var else 'fixed')
        return norm(OK(ex)(i, lo, hi))
    if w == 'hash_tree':
        m = fresh('nodes', 64); st.assume(z3.And(z3.UGE(m, 1), z3.ULT(m, 1 << 50)))
        g = uf(ex, 'inner-node', (64, 64), 256); r = uf(ex, 'root', (64,), 256)(i)
        new_vec(ex, st, args[0], 32, m, CFn(lambda j: norm(z3.If(bv(j, 64) == m - 1, r, g(i, bv(j, 64))))), 'tree'); return None
    raise Unsupported('virtual call of slot %s' % w)


def seqfacts(ex):
    def f(j, k):
        j = bv(j, 64); k = bv(k, 64); v = V(ex, k); k1 = norm_(k + 1)
        return [z3.Implies(z3.And(z3.ULT(k, N(ex)), z3.ULE(F(ex, k), j), z3.ULT(j, F(ex, k1))), FIXB(ex)(j) == z3.If(v, word(F(ex, N(ex)) + Q(ex, k), j - F(ex, k)), ENC(ex)(k, norm_(j - F(ex, k))))),
                *[z3.Implies(z3.And(z3.ULT(k, N(ex)), v, z3.ULE(Q(ex, k), x), z3.ULT(x, Q(ex, k1))), VARB(ex)(x) == ENC(ex)(k, norm_(x - Q(ex, k)))) for x in (j, norm_(j - F(ex, N(ex))))]]
    return f


def loops(l):
    ex = l.ex; q = inp(ex, 'q', 64); n = N(ex)
    l.forms.append(('position of field k', lambda k: F(ex, k)))
    l.forms.append(('length of the variable part', lambda k: Q(ex, k)))
    l.forms.append(('offset of field k', lambda k: norm_(F(ex, n) + Q(ex, k))))
    l.contents.append(('fixed part', lambda i, k: FIXB(ex)(bv(i, 64))))
    l.contents.append(('variable part', lambda i, k: VARB(ex)(bv(i, 64))))
    l.contents.append(('fixed part and then the variable part', lambda i, k: z3.If(z3.ULT(bv(i, 64), F(ex, n)), FIXB(ex)(bv(i, 64)), VARB(ex)(norm_(bv(i, 64) - F(ex, n))))))
    if ex.o['what'] == 'ht':
        def roots(i, k, e): return z3.If(z3.ULT(bv(i, 64), bv(k, 64)), uf(ex, 'root', (64,), 256)(bv(i, 64)), bv(e, 256))
        roots.entry = True
        l.contents.append(('roots of the fields before k', roots))
    l.bounds.append(('the fields', n))
    l.axioms.append(lambda k: facts(ex, [k, q]))
    if ex.o['what'] != 'des': return
    l.axioms.append(lambda k: z3.And(step(ex, LV(ex, k)), z3.Implies(z3.And(HV(ex, k), z3.ULE(k, n)), z3.ULE(F(ex, norm_(LV(ex, k) + 1)), F(ex, n)))))
    l.forms.append(('last offset', lambda k: z3.If(HV(ex, k), O(ex, LV(ex, k)), Z(0, 64))))
    l.opts.append(('last variable field', lambda k: (z3.Not(HV(ex, k)), LV(ex, k))))
    l.invs.append(('inside the input', lambda st, k: z3.ULE(F(ex, k), LN(ex))))
    l.invs.append(('last offset inside the input', lambda st, k: z3.Implies(HV(ex, k), z3.And(z3.UGE(O(ex, LV(ex, k)), F(ex, n)), z3.ULE(O(ex, LV(ex, k)), LN(ex))))))
    l.invs.append(('fields before k decoded', lambda st, k: z3.Implies(z3.And(z3.ULT(q, bv(k, 64)), z3.Or(z3.Not(V(ex, q)), q != LV(ex, k))), good(ex, q))))
    l.invs.append(('offset of the last variable field', lambda st, k: z3.Implies(z3.And(z3.ULT(q, bv(k, 64)), V(ex, q), z3.Not(HV(ex, q))), O(ex, q) == F(ex, n))))


def good(ex, i):
    """field i is well formed in the input and decodable"""
    i = bv(i, 64)
    return z3.If(V(ex, i), z3.And(z3.Implies(z3.Not(HV(ex, i)), O(ex, i) == F(ex, N(ex))), z3.ULE(O(ex, i), NX(ex, i)), z3.ULE(NX(ex, i), LN(ex)), OK(ex)(i, O(ex, i), NX(ex, i))),
                 OK(ex)(i, F(ex, i), norm_(F(ex, i) + S(ex, i))))


def h_ser(ex, st, r):
    n = N(ex); _, o = get_vec(ex, st, r); m = vsize(ex, st, r, 1); q = inp(ex, 'q', 64); t = inp(ex, 't', 64); f = seqfacts(ex)
    ex.prove(st, norm2(bv(m, 64) == F(ex, n) + Q(ex, n)), 'serialize_/ensures-length')
    st.assume(z3.ULT(q, n)); st.assume(facts(ex, [q]))
    for b in range(4):
        s = ex.under(st, V(ex, q), *f(norm(F(ex, q) + b), q))
        ex.prove(s, norm2(bv(at(ex, s, o.content, norm(F(ex, q) + b)), 8) == z3.Extract(8 * b + 7, 8 * b, norm_(F(ex, n) + Q(ex, q)))), 'serialize_/ensures-offset', 'byte %d' % b)
    s = ex.under(st, z3.Not(V(ex, q)), z3.ULT(t, S(ex, q)), *f(norm(F(ex, q) + t), q))
    ex.prove(s, norm2(bv(at(ex, s, o.content, norm(F(ex, q) + t)), 8) == ENC(ex)(q, t)), 'serialize_/ensures-fixed-field')
    s = ex.under(st, V(ex, q), z3.ULT(t, S(ex, q)), *(f(norm(Q(ex, q) + t), q) + f(norm(F(ex, n) + Q(ex, q) + t), q)))
    ex.prove(s, norm2(bv(at(ex, s, o.content, norm(F(ex, n) + Q(ex, q) + t)), 8) == ENC(ex)(q, t)), 'serialize_/ensures-variable-field')


def h_range(ex, st, v): st.ghost['range'] = (ex.load(st, v, 8), ex.load(st, v.at(8), 8))


def h_des(ex, st, z, r):
    n = N(ex); R = boolz(r); q = inp(ex, 'q', 64); nm = 'deserialize_/'
    st.assume(facts(ex, [q]))
    fits = z3.And(z3.ULE(F(ex, n), LN(ex)), z3.Implies(z3.Not(HV(ex, n)), F(ex, n) == LN(ex)))
    s = ex.under(st, R)
    ex.prove(s, norm2(fits), nm + 'ensures-nothing-missing-or-left-over')
    ex.prove(ex.under(s, z3.ULT(q, n)), norm2(good(ex, q)), nm + 'ensures-every-field-well-formed-and-decoded')
    ks = counters(st); wit = [z3.And(z3.ULT(i, n), z3.Not(good(ex, i))) for k in ks for i in (k, LV(ex, k))]
    ex.prove(ex.under(st, z3.Not(R), fits), norm2(z3.Or(*wit)) if wit else False, nm + 'ensures-rejects-only-malformed-layouts-and-undecodable-fields')


def h_ht(ex, st, r):
    n = N(ex); q = inp(ex, 'q', 64)
    if 'result' not in st.ghost:
        ex.prove(st, norm2(n == 0), 'hash_tree_/ensures-result-is-a-tree', 'no tree was built'); return
    t = returned_tree(ex, st, r, 'hash_tree_')
    (kind, m, ct, lim), mix = t
    ex.prove(st, kind == 'chunks' and norm2(bv(m, 64) == n), 'hash_tree_/ensures-one-chunk-per-field')
    ex.prove(ex.under(st, z3.ULT(q, n)), norm2(bv(ct.get(q), 256) == uf(ex, 'root', (64,), 256)(q)), 'hash_tree_/ensures-chunk-is-the-root-of-the-field')
    ex.prove(st, norm2(z3.Or(bv(lim, 64) == 0, bv(lim, 64) == n)), 'hash_tree_/ensures-no-limit')
    ex.prove(st, mix == (), 'hash_tree_/ensures-nothing-mixed-in')


HOOKS = {'parts': h_parts, 'ser': h_ser, 'range': h_range, 'des': h_des, 'ht': h_ht}


def job(m, what):
    name = {'ser': 'serialize_', 'des': 'deserialize_', 'ht': 'hash_tree_'}[what]
    return (name + '/any-fields', lambda: spec.run_spec(m, name + '[any number of fields]', 'spec_' + what, overrides=TREE,
                                        opts={'hooks': HOOKS, 'vcall': vcall, 'loops': [loops], 'seqfacts': seqfacts, 'what': what, 'forms_first': True, 'unroll': 16, 'lia': True}))


def run(ck, jobs, what, m):
    """the jobs together with the one for any number of fields; a failure of that one alone, with every sequence of kinds that occurs verified, is a
    loop invariant that was not found: no container type of the code base has any other sequence"""
    n0 = len(ck.obs)
    spec.run_all(ck, [job(m, what)] + jobs)
    new = ck.obs[n0:]; mine = [o for o in new if '[any number of fields]' in o.name]
    if all(o.status == 'ok' for o in new if o not in mine):
        for o in mine:
            if o.status == 'failed': o.status = 'unknown'; o.detail = 'holds for every kind sequence of the code base, not proved for any number of fields: ' + str(o.detail)
