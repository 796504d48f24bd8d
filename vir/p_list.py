"""C14, C15, C16: vectors and lists over opaque elements."""
import z3
from . import spec
from .vals import *
from .mem import *
from .ir import Unsupported
from .models import *
from .props import prove, lemma
from .p_gen import TREE, returned_tree, B64, at

Z = z3.BitVecVal


def K(ex): return ex.o['K']
def N(ex): return inp(ex, 'n', 64) if ex.o.get('N') is None else ex.o['N']
def ID(ex): return uf(ex, 'element', (64,), 64)             # value of the i-th element
def ENC(ex): return uf(ex, 'encoding', (64, 64), 8)         # j-th byte of the encoding of a value
def OK(ex): return uf(ex, 'accepts', (64, 64), 0)           # the element type accepts the bytes [a, b) of the input
def DEC(ex): return uf(ex, 'decoded', (64, 64), 64)         # ... and this is the value
def ROOT(ex): return uf(ex, 'root', (64,), 256)
def LEN(ex): return uf(ex, 'length', (64,), 64)             # encoded size of a value (variable-size elements)
def P(ex): return uf(ex, 'sum-of-lengths', (64,), 64)       # of the first i elements


def vt(ex): return Ptr('@_ZTV2ELILm%dEE' % K(ex), 16)


def elem_of(ex, i): return SV({0: (8, vt(ex)), 8: (8, norm(ID(ex)(bv(i, 64))))})


def h_elements(ex, st, v):
    n = N(ex)
    st.assume(z3.ULT(n, 1 << (32 if not K(ex) else 52 - K(ex).bit_length())))
    new_vec(ex, st, v, 16, n, CFn(lambda i: elem_of(ex, i)), 'elements')


def h_slots(ex, st, v):
    from .props import slot_at
    n = N(ex); st.assume(z3.ULT(n, 1 << 48))
    new_vec(ex, st, v, 16, n, slot_at(ex, lambda i: ID(ex)(i)), 'elements')


def h_vector(ex, st, z, n):
    """a vector object: words 0: its vptr, 1+2i, 2+2i: the element i"""
    name = table(ex, 'eth::VectorFixedSizedParts<%s, %dul>' % ('EL<%dul>' % K(ex) if K(ex) is not None else 'eth::Slot', n))

    def get(i):
        if isinstance(i, int): return Ptr('@' + name, 16) if i == 0 else (vt(ex) if i & 1 else norm(ID(ex)(Z((i - 2) // 2, 64))))
        l = lin(i); d = Lin(l.c - l.c % 2, l.t).div(2)
        if d is None: raise Unsupported('word of a vector: %s %s' % (i, l))
        if l.c & 1: return vt(ex)
        return norm(ID(ex)(bv(d.add(Lin(-1)).expr(), 64)))
    o = Seq(8, 1 + 2 * n, CFn(get), 'vector object'); o.fixed = 16
    oid = ex.new(st, o, 'vector')
    st.ghost['vector'] = oid
    return Ptr(oid, 0)


def table(ex, cls):
    names = [g for g in ex.mod.gtext if g.startswith('_ZTV')]
    import subprocess
    out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    for g, d in zip(names, out):
        if d == 'vtable for ' + cls: return g
    raise Unsupported('no virtual table of ' + cls)


def ident(ex, st, p): return ex.load(st, p.at(8), 8)


# --- contracts of the element type -----------------------------------------------------------------------------------------------------------
def e_ser(ex, st, a, c):
    v = bv(ident(ex, st, a[1]), 64); f = ENC(ex)
    if K(ex): new_vec(ex, st, a[0], 1, K(ex), CFn(lambda j: norm(f(v, bv(j, 64)))), 'encoding'); return
    n = norm(LEN(ex)(v)); st.assume(z3.ULT(n, 1 << 32))
    new_vec(ex, st, a[0], 1, n, CFn(lambda j: norm(f(v, bv(j, 64)))), 'encoding')


def slice_(ex, st, x, y):
    a, b = itp(ex, x), itp(ex, y); bo, eo = st.ghost['range']
    ex.prove(st, isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == bo.o == b.o, 'call/deserialize/slice-of-the-input')
    lo, hi, n = [norm(bv(p.off.add(bo.off, -1).expr(), 64)) for p in (a, b, eo)]
    ex.prove(st, norm2(z3.And(z3.ULE(bv(lo, 64), bv(hi, 64)), z3.ULE(bv(hi, 64), bv(n, 64)))), 'call/deserialize/requires-slice-inside-the-input')
    return lo, hi


def e_des(ex, st, a, c):
    lo, hi = slice_(ex, st, a[1], a[2])
    this = a[0]
    if this.o == st.ghost.get('vector'):
        # element i of the vector is given the i-th slice; what it then holds is its own contract
        ex.prove(st, norm2(bv(this.off.expr(), 64) * K(ex) == bv(lo, 64) * 16 + 8 * K(ex)), 'call/deserialize/element-gets-its-own-slice')
        ex.prove(st, norm2(bv(hi, 64) - bv(lo, 64) == K(ex)), 'call/deserialize/element-gets-its-own-slice')
    else: ex.store(st, this.at(8), 8, norm(DEC(ex)(bv(lo, 64), bv(hi, 64))))
    return norm(OK(ex)(bv(lo, 64), bv(hi, 64)))


def e_tree(ex, st, a, c):
    v = bv(ident(ex, st, a[1]), 64); n = fresh('nodes', 64); st.assume(z3.And(z3.UGE(n, 1), z3.ULT(n, 1 << 50)))
    f = uf(ex, 'inner-node', (64, 64), 256); r = ROOT(ex)(v)
    new_vec(ex, st, a[0], 32, n, CFn(lambda i: norm(z3.If(bv(i, 64) == n - 1, r, f(v, bv(i, 64))))), 'element tree')


ELEM = [(r'^EL<\d+ul>::serialize\(\) const$', e_ser), (r'^EL<\d+ul>::deserialize\(', e_des), (r'^EL<\d+ul>::hash_tree\(\) const$', e_tree)]


# --- checks ----------------------------------------------------------------------------------------------------------------------------------
def h_bytes(ex, st, r):
    n = N(ex); k = K(ex); _, o = get_vec(ex, st, r); m = vsize(ex, st, r, 1)
    ex.prove(st, norm2(bv(m, 64) == bv(n, 64) * k), 'serialize/ensures-length')
    q = inp(ex, 'q', 64); st.assume(z3.ULT(q, bv(n, 64)))
    bad = None
    for t in range(k):
        e = norm2(bv(o.content.get(norm(q * k + t)), 8) == ENC(ex)(ID(ex)(q), Z(t, 64)))
        if e is not True and ex.holds(st, e) is not True: bad = (t, e); break
    ex.prove(st, True if bad is None else bad[1], 'serialize/ensures-concatenation-of-the-element-encodings', 'byte %s' % (bad and bad[0]))


def h_input(ex, st, v):
    """input of K*m + r bytes (every length is of this form)"""
    k = K(ex); m = inp(ex, 'm', 64); st.assume(z3.ULT(m, (1 << 56) // k))
    ln = norm(m * k)
    if ex.o.get('case') == 'rest':
        r = inp(ex, 'rest', 64); st.assume(z3.And(z3.UGE(r, 1), z3.ULT(r, k))); BOUND[r.get_id()] = (r, k); ln = norm(m * k + r)
    f = uf(ex, 'in', (64,), 8)
    new_vec(ex, st, v, 1, ln, CFn(lambda i: norm(f(bv(i, 64)))), 'in')
    st.ghost['range'] = (ex.load(st, v, 8), ex.load(st, v.at(8), 8))


def counters(st):
    """loop counters this path has met: candidates for the element that made it fail"""
    acc = {}
    for c in st.pc: syms(c, acc)
    return [v for n, v in acc.items() if n.startswith('k!')]


def boolz(r):
    r = bl(r); return z3.BoolVal(r) if isinstance(r, bool) else r


def lin_ok(ex, i):
    k = K(ex); return OK(ex)(norm_(i * k), norm_(i * k + k))


def norm_(e): return bv(norm(e), 64)


def h_vecdec(ex, st, p, r):
    R = boolz(r); n = N(ex); m = inp(ex, 'm', 64); q = inp(ex, 'q', 64)
    if ex.o.get('case') == 'rest': ex.prove(st, norm2(z3.Not(R)), 'VectorFixedSizedParts::deserialize/ensures-exact-length'); return
    s = ex.under(st, R)
    ex.prove(s, m == n, 'VectorFixedSizedParts::deserialize/ensures-exact-length')
    s = ex.under(s, z3.ULT(q, n))
    ex.prove(s, lin_ok(ex, q), 'VectorFixedSizedParts::deserialize/ensures-every-element-decoded')
    wit = [z3.And(z3.ULT(x, n), z3.Not(lin_ok(ex, x))) for x in counters(st) + [Z(i, 64) for i in range(min(n, 20))]]
    s = ex.under(st, m == n, z3.Not(R))
    ex.prove(s, norm2(z3.Or(*wit)), 'VectorFixedSizedParts::deserialize/ensures-rejects-only-undecodable-elements')


def h_lstdec(ex, st, v, r):
    R = boolz(r); m = inp(ex, 'm', 64); q = inp(ex, 'q', 64); lim = inp(ex, 'limit', 64)
    if ex.o.get('case') == 'rest': ex.prove(st, norm2(z3.Not(R)), 'ListFixedSizedParts::deserialize/ensures-whole-elements'); return
    fits = z3.Or(lim == 0, z3.ULE(m, lim))
    _, o = get_vec(ex, st, v); n = vsize(ex, st, v, 16)
    s = ex.under(st, R)
    ex.prove(s, norm2(fits), 'ListFixedSizedParts::deserialize/ensures-limit')
    ex.prove(s, norm2(bv(n, 64) == m), 'ListFixedSizedParts::deserialize/ensures-element-count')
    s = ex.under(s, z3.ULT(q, m))
    ex.prove(s, lin_ok(ex, q), 'ListFixedSizedParts::deserialize/ensures-every-element-decoded')
    e = o.content.get(q)
    ex.prove(s, norm2(bv(e.c[8][1], 64) == DEC(ex)(norm_(q * K(ex)), norm_(q * K(ex) + K(ex)))) if isinstance(e, SV) else False, 'ListFixedSizedParts::deserialize/ensures-elements-in-order')
    s = ex.under(st, z3.Not(R), fits)
    wit = [z3.And(z3.ULT(x, m), z3.Not(lin_ok(ex, x))) for x in counters(st) + [Z(i, 64) for i in range(18)]]
    ex.prove(s, norm2(z3.Or(*wit)), 'ListFixedSizedParts::deserialize/ensures-rejects-only-undecodable-elements')


def vec_loops(l):
    if 'VectorFixedSizedParts' in l.fn and l.ex.o.get('N') is not None:
        l.bounds.append(('the elements', Z(l.ex.o['N'], 64)))
        q = inp(l.ex, 'q', 64)
        if '::deserialize' in l.fn: l.invs.append(('elements before k decoded', lambda st, k: z3.Implies(z3.ULT(q, bv(k, 64)), lin_ok(l.ex, q))))
    elif 'ListFixedSizedParts' in l.fn and '::deserialize' in l.fn:
        l.bounds.append(('the elements', inp(l.ex, 'm', 64)))
        q = inp(l.ex, 'q', 64)
        l.invs.append(('elements before k decoded', lambda st, k: z3.Implies(z3.ULT(q, bv(k, 64)), lin_ok(l.ex, q))))


# --- variable-size elements
def steps(ex, i):
    """defining facts of the sums at i"""
    p, l, d = P(ex), LEN(ex), ID(ex)
    i = bv(i, 64)
    return z3.And(p(Z(0, 64)) == 0, p(norm_(i + 1)) == p(i) + l(d(i)), z3.ULT(l(d(i)), 1 << 32))


def mono(ex, i, j):
    """i <= j implies P(i) <= P(j) (lemma, by induction)"""
    p = P(ex); i = bv(i, 64); j = bv(j, 64); n = N(ex)
    return z3.Implies(z3.And(z3.ULE(i, j), z3.ULE(j, n)), z3.And(z3.ULE(p(i), p(j)), z3.ULE(p(j), p(n))))


def facts(ex, ks):
    n = N(ex); fs = [P(ex)(Z(0, 64)) == 0, z3.ULT(P(ex)(n) + 4 * n, 1 << 32), z3.ULT(P(ex)(n), 1 << 32), z3.ULT(n, 1 << 30)]
    ks = [bv(k, 64) for k in ks]
    for k in ks:
        fs.append(z3.Implies(z3.ULT(k, n), steps(ex, k)))
        for j in ks:
            fs.append(mono(ex, k, j)); fs.append(mono(ex, norm_(k + 1), j))
        fs.append(mono(ex, norm_(k + 1), n)); fs.append(mono(ex, k, n))
    return z3.And(*fs)


def sum_lemma(ck):
    """P(i) <= P(j) for i <= j <= n, when the sum of the first n lengths stays below 2^32: induction on j"""
    p = z3.Function('p', z3.IntSort(), z3.IntSort()); i, j = z3.Ints('i j'); l = z3.Function('l', z3.IntSort(), z3.IntSort())
    lemma(ck, 'sums-are-monotone/step', z3.Implies(z3.And(0 <= i, i <= j, p(i) <= p(j), p(j + 1) == p(j) + l(j), l(j) >= 0), p(i) <= p(j + 1)))
    lemma(ck, 'sums-are-monotone/base', p(i) <= p(i))


def CAT(ex): return uf(ex, 'concatenation', (64,), 8)       # the encodings of all elements, one after the other


def cat_fact(ex, j, k):
    """definition of the concatenation: position j, when it lies in the encoding of element k"""
    j = bv(j, 64); k = bv(k, 64); e = ID(ex)(k)
    return z3.Implies(z3.And(z3.ULT(k, N(ex)), z3.ULE(P(ex)(k), j), z3.ULT(j - P(ex)(k), LEN(ex)(e))), CAT(ex)(j) == ENC(ex)(e, norm_(j - P(ex)(k))))


def var_seqfacts(ex): return lambda j, k: [cat_fact(ex, j, k)]


def table_byte(ex, i):
    i = bv(i, 64); v = 4 * N(ex) + P(ex)(norm_(z3.LShR(i, 2)))
    b = i & 3
    return z3.If(b == 0, z3.Extract(7, 0, v), z3.If(b == 1, z3.Extract(15, 8, v), z3.If(b == 2, z3.Extract(23, 16, v), z3.Extract(31, 24, v))))


def var_loops(l):
    ex = l.ex; q = inp(ex, 'q', 64); t = inp(ex, 't', 64); n = N(ex)
    if 'serialize' not in l.fn: return
    p = P(ex)
    l.forms.append(('sum of lengths', lambda k: p(bv(k, 64))))
    l.forms.append(('offset', lambda k: norm_(p(bv(k, 64)) + 4 * n)))
    l.contents.append(('concatenation of the encodings', lambda i, k: CAT(ex)(bv(i, 64))))
    l.contents.append(('offset table', lambda i, k: table_byte(ex, i)))
    l.axioms.append(lambda k: facts(ex, [k, q, norm(bv(k, 64) + 1)]))


def h_varbytes(ex, st, r):
    n = N(ex); p = P(ex); _, o = get_vec(ex, st, r); m = vsize(ex, st, r, 1)
    q = inp(ex, 'q', 64); t = inp(ex, 't', 64)
    st.assume(facts(ex, [q])); st.assume(cat_fact(ex, norm(p(q) + t), q))
    ex.prove(st, norm2(z3.If(n == 0, bv(m, 64) == 0, bv(m, 64) == 4 * n + p(n))), 'ListVariableSizedParts::serialize/ensures-length')
    st.assume(z3.ULT(q, n))
    for b in range(4):
        ex.prove(st, norm2(bv(at(ex, st, o.content, norm(4 * q + b)), 8) == z3.Extract(8 * b + 7, 8 * b, norm_(4 * n + p(q)))), 'ListVariableSizedParts::serialize/ensures-offset-table')
    st.assume(z3.ULT(t, LEN(ex)(ID(ex)(q))))
    ex.prove(st, norm2(bv(at(ex, st, o.content, norm(4 * n + p(q) + t)), 8) == ENC(ex)(ID(ex)(q), t)), 'ListVariableSizedParts::serialize/ensures-element-encodings-in-order')


# --- decoding of variable-size elements
def IN(ex): return uf(ex, 'in', (64,), 8)
def LN(ex): return inp(ex, 'in.size', 64)


def W(ex, i):
    """i-th word of the input"""
    f = IN(ex); i = bv(i, 64)
    return z3.ZeroExt(32, z3.Concat(*[f(norm_(4 * i + b)) for b in (3, 2, 1, 0)]))


def CNT(ex): return norm_(z3.LShR(W(ex, Z(0, 64)), 2))


def nxt(ex, i): return z3.If(norm_(bv(i, 64) + 1) == CNT(ex), LN(ex), W(ex, norm_(bv(i, 64) + 1)))


def h_varinput(ex, st, v):
    n = LN(ex); st.assume(z3.ULT(n, 1 << 56)); f = IN(ex)
    new_vec(ex, st, v, 1, n, CFn(lambda i: norm(f(bv(i, 64)))), 'in')
    st.ghost['range'] = (ex.load(st, v, 8), ex.load(st, v.at(8), 8))


def table_ok(ex):
    w0 = W(ex, Z(0, 64)); n = LN(ex); lim = inp(ex, 'limit', 64); c = CNT(ex)
    return z3.And(z3.UGE(n, 4), w0 & 3 == 0, z3.UGE(c, 1), z3.ULE(w0, n), z3.Or(lim == 0, z3.ULE(c, lim)))


def step_ok(ex, i):
    """slice i of the table is well formed and decodable"""
    w = W(ex, i); e = nxt(ex, i)
    return z3.And(z3.ULE(w, e), z3.ULE(e, LN(ex)), OK(ex)(w, e))


def vardec_loops(l):
    ex = l.ex; q = inp(ex, 'q', 64)
    if '::deserialize' not in l.fn: return
    l.forms.append(('word k of the table', lambda k: W(ex, k)))
    l.bounds.append(('the count', CNT(ex)))
    l.contents.append(('decoded slices', lambda i, k: SV({0: (8, vt(ex)), 8: (8, norm(DEC(ex)(W(ex, i), W(ex, norm_(bv(i, 64) + 1)))))})))
    l.invs.append(('offset inside the input', lambda st, k: z3.ULE(W(ex, k), LN(ex))))
    l.invs.append(('elements before k are decodable', lambda st, k: z3.Implies(z3.ULT(q, bv(k, 64)), z3.And(z3.ULE(W(ex, q), W(ex, norm_(q + 1))), z3.ULE(W(ex, norm_(q + 1)), LN(ex)), OK(ex)(W(ex, q), W(ex, norm_(q + 1)))))))


def h_vardec(ex, st, v, r):
    R = boolz(r); n = LN(ex); q = inp(ex, 'q', 64); c = CNT(ex); name = 'ListVariableSizedParts::deserialize/'
    _, o = get_vec(ex, st, v); m = vsize(ex, st, v, 16)
    s = ex.under(st, n == 0)
    ex.prove(s, norm2(R), name + 'ensures-no-bytes-are-the-empty-list'); ex.prove(s, norm2(bv(m, 64) == 0), name + 'ensures-no-bytes-are-the-empty-list')
    s = ex.under(st, R, n != 0)
    ex.prove(s, norm2(table_ok(ex)), name + 'ensures-well-formed-table')
    ex.prove(s, norm2(bv(m, 64) == c), name + 'ensures-element-count')
    s = ex.under(s, z3.ULT(q, c))
    ex.prove(s, norm2(step_ok(ex, q)), name + 'ensures-every-slice-well-formed-and-decoded')
    if ex.check(s, z3.BoolVal(True)) != 'unsat':
        e = o.content.get(q)
        ex.prove(s, norm2(bv(e.c[8][1], 64) == DEC(ex)(W(ex, q), nxt(ex, q))) if isinstance(e, SV) else False, name + 'ensures-elements-in-order')
    s = ex.under(st, n != 0, z3.Not(R), table_ok(ex))
    wit = []
    for x in counters(st) + [Z(i, 64) for i in range(18)]:
        for i in ([x] if z3.is_bv_value(x) else [x, norm_(x + 1)]): wit.append(z3.And(z3.ULT(i, c), z3.Not(step_ok(ex, i))))
    ex.prove(s, norm2(z3.Or(*wit)), name + 'ensures-rejects-only-malformed-tables-and-undecodable-elements')


# --- trees
def chunks_ok(ex, st, r, n, name, lim, mix, ones=False):
    t = returned_tree(ex, st, r, name)
    if t is None: return
    (kind, m, ct, l), mx = t
    q = inp(ex, 'q', 64)
    ex.prove(st, kind == 'chunks', name + '/ensures-tree-over-element-roots')
    want = norm(z3.If(bv(n, 64) == 0, Z(1, 64), bv(n, 64)))
    ex.prove(st, norm2(bv(m, 64) == bv(want, 64)), name + '/ensures-one-leaf-per-element')
    s = ex.under(st, z3.ULT(q, bv(n, 64)))
    ex.prove(s, norm2(bv(ct.get(q), 256) == ROOT(ex)(ID(ex)(q))), name + '/ensures-leaf-is-the-root-of-the-element')
    s = ex.under(st, bv(n, 64) == 0)
    if ex.check(s, z3.BoolVal(True)) != 'unsat': ex.prove(s, norm2(bv(ct.get(0), 256) == 0), name + '/ensures-empty-list-has-a-zero-leaf')
    ex.prove(st, norm2(bv(l, 64) == bv(lim, 64)) if lim is not None else norm2(z3.Or(bv(l, 64) == 0, bv(l, 64) == bv(n, 64))), name + '/ensures-limit')
    ok = len(mx) == len(mix) and all(ex.holds(st, norm2(bv(x, 64) == bv(y, 64))) is True for x, y in zip(mx, mix))
    ex.prove(st, ok, name + '/ensures-number-of-elements-mixed-in', str(mx))


def h_lsttree(ex, st, r, lim): chunks_ok(ex, st, r, N(ex), 'List::hash_tree', lim, (N(ex),))


def h_vectree(ex, st, r, n):
    if n == 1 and 'result' not in st.ghost:
        _, o = get_vec(ex, st, r)
        ex.prove(st, norm2(z3.And(bv(vsize(ex, st, r, 32), 64) == 1, bv(o.content.get(0), 256) == ROOT(ex)(ID(ex)(Z(0, 64))))), 'VectorFixedSizedParts::hash_tree/ensures-single-leaf'); return
    chunks_ok(ex, st, r, n, 'VectorFixedSizedParts::hash_tree', None, ())


# --- packed trees
def h_packedlist(ex, st, r, lim):
    t = returned_tree(ex, st, r, 'List<integer>::hash_tree')
    if t is None: return
    (kind, m, ct, l), mix = t; q = inp(ex, 'q', 64); n = inp(ex, 'n', 64); L = bv(lim, 64)
    ex.prove(st, kind == 'bytes' and norm2(bv(m, 64) == 8 * n), 'List<integer>::hash_tree/ensures-tree-over-the-encoding')
    ex.prove(ex.under(st, z3.ULT(q, 8 * n)), norm2(bv(at(ex, st, ct, q), 8) == uf(ex, 'packed', (64,), 8)(q)), 'List<integer>::hash_tree/ensures-tree-over-the-encoding')
    ex.prove(ex.under(st, z3.ULT(L, 1 << 56)), norm2(bv(l, 64) == z3.UDiv(8 * L + 31, Z(32, 64))), 'List<integer>::hash_tree/ensures-limit-in-chunks')
    ex.prove(st, len(mix) == 1 and norm2(bv(mix[0], 64) == n), 'List<integer>::hash_tree/ensures-number-of-elements-mixed-in', str(mix))


def s_packed(ex, st, a, c):
    f = uf(ex, 'packed', (64,), 8); n = inp(ex, 'n', 64)
    new_vec(ex, st, a[0], 1, norm(8 * n), CFn(lambda j: norm(f(bv(j, 64)))), 'encoding')


def s_default(ex, st, a, c):
    st.ghost['default'] = st.ghost.get('default', ()) + (a[1],)
    f = uf(ex, 'default tree', (64,), 256); n = inp(ex, 'default.size', 64); st.assume(z3.And(z3.UGE(n, 1), z3.ULT(n, 1 << 50)))
    new_vec(ex, st, a[0], 32, n, CFn(lambda i: norm(f(bv(i, 64)))), 'tree')


def by_default(name):
    def h(ex, st, r, z):
        _, o = get_vec(ex, st, r); q = z3.BitVec('q', 64); f = uf(ex, 'default tree', (64,), 256)
        ex.prove(st, norm2(z3.And(bv(vsize(ex, st, r, 32), 64) == inp(ex, 'default.size', 64), bv(o.content.get(q), 256) == f(q))), name + '/ensures-tree-over-the-encoding')
        d = st.ghost.get('default', ())
        ex.prove(st, len(d) == 1 and isinstance(d[0], Ptr) and isinstance(z, Ptr) and d[0].o == z.o and same_lin(d[0].off, z.off), name + '/ensures-tree-over-the-encoding', str(d))
    return h


PACKED = [(r'ListFixedSizedParts<eth::Slot>::serialize\(\) const$', s_packed), (r'^ssz::Container::hash_tree\(\) const$', s_default)]


def h_bittree(ex, st, r, lim):
    t = returned_tree(ex, st, r, 'Bitlist::hash_tree')
    if t is None: return
    (kind, m, ct, l), mix = t; q = inp(ex, 'q', 64); n = inp(ex, 'n', 64); L = bv(lim, 64); f = uf(ex, 'bit', (64, 64), 0)
    ex.prove(st, kind == 'bytes' and norm2(bv(m, 64) == z3.UDiv(n + 7, Z(8, 64))), 'Bitlist::hash_tree/ensures-packed-without-delimiter')
    bs = [z3.If(z3.And(z3.ULT(8 * q + b, n), f(8 * q + b, Z(0, 64))), Z(1, 1), Z(0, 1)) for b in range(8)]
    ex.prove(ex.under(st, z3.ULT(q, bv(m, 64))), norm2(bv(at(ex, st, ct, q), 8) == z3.Concat(*reversed(bs))), 'Bitlist::hash_tree/ensures-packed-without-delimiter')
    ex.prove(ex.under(st, z3.ULT(L, 1 << 63)), norm2(bv(l, 64) == z3.UDiv(L + 255, Z(256, 64))), 'Bitlist::hash_tree/ensures-limit-in-chunks')
    ex.prove(st, len(mix) == 1 and norm2(bv(mix[0], 64) == n), 'Bitlist::hash_tree/ensures-number-of-bits-mixed-in', str(mix))


HOOKS = {'varinput': h_varinput, 'vardec': h_vardec, 'packedlist': h_packedlist, 'packedvec': by_default('VectorFixedSizedParts<integer>::hash_tree'), 'elements': h_elements, 'slots': h_slots, 'vector': h_vector, 'bytes': h_bytes, 'input': h_input, 'vecdec': h_vecdec, 'lstdec': h_lstdec, 'varbytes': h_varbytes,
         'lsttree': h_lsttree, 'vectree': h_vectree}

VECS = [(32, 1), (32, 2), (32, 33), (32, 64), (32, 8192), (32, 65536), (8, 64), (8, 8192), (40, 5), (1, 3)]
LISTS = (1, 8, 32, 72, 112, 121, 416, 1240)


def job(m, name, k, n=None, **kw):
    o = dict({'hooks': HOOKS, 'K': k, 'N': n, 'lia': True, 'unroll': 16, 'maxiter': 70, 'loops': [vec_loops], 'copyable': ('EL<%sul>' % k,)}, **kw)
    lab = name + ('/' + kw['case'] if 'case' in kw else '')
    return (lab, lambda: spec.run_spec(m, lab, 'spec_' + name, overrides=ELEM + TREE, opts=o))


def dec_jobs(m):
    js = []
    for k, n in VECS:
        for c in ('whole', 'rest'):
            if k > 1 or c == 'whole': js.append(job(m, 'vec_dec_%d_%d' % (k, n), k, n, case=c))
    for k in LISTS:
        for c in ('whole', 'rest'):
            if k > 1 or c == 'whole': js.append(job(m, 'lst_dec_%d' % k, k, case=c))
    return js


def vardec_job(m): return job(m, 'var_dec', 0, loops=[vardec_loops])


@prove('C14')
def p14(ck):
    m = spec.compile_unit(ck, 's_list')
    js = [job(m, 'vec_enc_%d_%d' % (k, n), k, n) for k, n in VECS] + [job(m, 'lst_enc_%d' % k, k) for k in LISTS]
    spec.run_all(ck, js + dec_jobs(m))
    ck.assumptions += [EL_NOTE % 'the element sizes and vector lengths that occur in the containers, and a few more', 'Lists of fewer than 2^52 / element size elements; inputs below 2^56 bytes.']


EL_NOTE = 'The element type is an arbitrary type that meets its contract (its encoding, its acceptance of a slice, the value decoded from it and its root are uninterpreted functions); %s.'


def sum_roundtrip(ck):
    """the layout that serialize produces is a well formed table whose slices are the encodings"""
    p0, p1, pn, n, q = z3.BitVecs('p0 p1 pn n q', 64); ln = 4 * n + pn; w0 = 4 * n
    pre = z3.And(z3.ULE(p0, p1), z3.ULE(p1, pn), z3.ULT(pn, 1 << 32), z3.ULT(n, 1 << 30), z3.ULT(ln, 1 << 32), z3.UGE(n, 1), z3.ULT(q, n), z3.Implies(q + 1 == n, p1 == pn))
    e = z3.If(q + 1 == z3.LShR(w0, 2), ln, 4 * n + p1)
    lemma(ck, 'an-encoded-list-has-a-well-formed-table', z3.Implies(pre, z3.And(w0 & 3 == 0, z3.LShR(w0, 2) == n, z3.ULE(w0, ln), z3.ULE(4 * n + p0, e), z3.ULE(e, ln), e - (4 * n + p0) == p1 - p0)))


@prove('C15')
def p15(ck):
    m = spec.compile_unit(ck, 's_list')
    sum_lemma(ck)
    sum_roundtrip(ck)
    spec.run_all(ck, [job(m, 'var_enc', 0, loops=[var_loops], seqfacts=var_seqfacts), vardec_job(m)])
    ck.assumptions += [EL_NOTE % 'one specification for all element types', 'The total length of an encoding is below 2^32 (an SSZ offset has four bytes), fewer than 2^30 elements; inputs below 2^56 bytes.',
                       'The sums of lengths and the concatenation of the encodings are ghost functions given by their defining equations, instantiated where needed.']


SAFETY = r'/(memory|arithmetic|control|call|execution|reachability|static-initialisation|parts-of-deserialize|[a-zA-Z:<>0-9]+/assigns)(/|-|$)|/loop-'


@prove('C13')
def p13(ck):
    """every decoder under contract: the obligations that are not about the result"""
    import re
    from . import p_gen, p_cont, p_sym, props
    n0 = len(ck.obs)
    spec.run_all(ck, dec_jobs(spec.compile_unit(ck, 's_list')) + [vardec_job(spec.compile_unit(ck, 's_list'))])
    g = spec.compile_unit(ck, 's_gen')
    p_sym.lemmas(ck, lemma)
    p_sym.run(ck, [p_gen.job(g, 'spec_des', s, 'deserialize_') for s in p_gen.shapes()], 'des', g)
    c = spec.compile_unit(ck, 's_codec'); b = spec.compile_unit(ck, 's_bitl')
    spec.run_all(ck, [props.codec_job(c, e) for e in ['slot_dec', 'bool_dec'] + ['bytes_dec_%d' % n for n in props.BYTES_N] + ['bitv_dec_%d' % n for n in props.BITV_N]] + [props.bitl_dec(b)])
    p_cont.run(ck, ('minimal', 'mainnet'), ('bin',))
    drop = [o for o in ck.obs[n0:] if not re.search(SAFETY, o.name)]
    ck.obs[n0:] = [o for o in ck.obs[n0:] if re.search(SAFETY, o.name)]
    ck.notes.append('%d obligations about results belong to C10, C12, C14, C15, C17, C18, C19 and are not counted here' % len(drop))
    ck.assumptions += [p_gen.GEN_NOTE, EL_NOTE % 'see C14 and C15', 'Nesting: a container type contains only finitely many levels, so termination of every level bounds the whole.', 'Inputs below 2^56 bytes.']


@prove('C16')
def p16(ck):
    from . import p_gen
    m = spec.compile_unit(ck, 's_list')
    js = [job(m, 'vec_tree_%d_%d' % (k, n), k, n) for k, n in VECS] + [job(m, 'lst_tree_%d' % k, k) for k in LISTS] + [job(m, 'var_tree', 0)]
    g = spec.compile_unit(ck, 's_gen')
    from . import p_sym
    p_sym.run(ck, [p_gen.job(g, 'spec_ht', s, 'hash_tree_') for s in p_gen.shapes()], 'ht', g)
    js += [p_gen.job(g, 'spec_root', 'f', 'hash_tree_root')]
    js += [p_gen.job(g, 'spec_default', k, 'Container::hash_tree') for k in 'fv']
    for e in ('ints_lst_tree', 'ints_vec_tree'):
        js.append((e, lambda e=e: spec.run_spec(m, e, 'spec_' + e, overrides=PACKED + TREE, opts={'hooks': HOOKS, 'K': None, 'N': 64 if 'vec' in e else None, 'lia': True, 'unroll': 16, 'maxiter': 70})))
    from .props import bits_hook, packed, BITV_N, BYTES_N
    b = spec.compile_unit(ck, 's_bitl')
    js.append(('bitlist_tree', lambda: spec.run_spec(b, 'bitlist_tree', 'spec_tree', overrides=TREE, opts={'hooks': {'bits': bits_hook('bit', 'n'), 'bittree': h_bittree}, 'loops': [packed], 'skolems': ['q'], 'maxiter': 64})))
    v = spec.compile_unit(ck, 's_codec')
    for n, w in [('bitv_tree_%d' % n, 'Bitvector') for n in BITV_N] + [('bytes_tree_%d' % n, 'Bytes') for n in BYTES_N]:
        js.append((n, lambda n=n, w=w: spec.run_spec(v, n, 'spec_' + n, overrides=PACKED + TREE, opts={'hooks': {'dtree': by_default(w + '::hash_tree')}, 'unroll': 256})))
    spec.run_all(ck, js)
