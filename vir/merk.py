"""Vocabulary of the Merkle tree contracts: tree nodes, level sizes, zero subtrees, as total functions with their defining equations; the
inductive facts about them are separate solver lemmas."""
import z3
from .vals import *
from .mem import *
from .ir import Unsupported
from . import models
from .ex import Ex, State

B64 = z3.BitVecSort(64); B256 = z3.BitVecSort(256)
H = z3.Function('sha256_of_concat', B256, B256, B256)
Z = z3.Function('zero_subtree', B64, B256)
T = z3.Function('tree_node', B64, B64, B256)
N = z3.Function('node_at', B64, B256)
CNT = z3.Function('level_count', B64, B64)
F = z3.Function('level_start', B64, B64)
LOG = z3.Function('log2ceil', B64, B64)
LEAF = z3.Function('leaf', B64, B256)
n_ = z3.BitVec('n', 64)
one = z3.BitVecVal(1, 64)
def V(x): return z3.BitVecVal(x, 64)


P2 = z3.Function('pow2', B64, B64)
def shl(x): return one << x


def pow_facts(x, p2=P2):
    """lemma: powers of two"""
    return [p2(V(0)) == 1, z3.Implies(z3.And(z3.UGE(x, 1), z3.ULT(x, 64)), p2(x) == 2 * p2(x - 1)), z3.Implies(z3.ULT(x, 64), p2(x) != 0), z3.Implies(z3.ULT(x, 63), z3.ULE(p2(x), 1 << 62)),
            z3.Implies(z3.ULE(x, 51), z3.ULE(p2(x), 1 << 51)), z3.Implies(z3.And(z3.UGE(x, 51), z3.ULT(x, 64)), z3.UGE(p2(x), 1 << 51))]


def log_defs(x, l, p2):
    return [z3.ULE(l, 64), z3.Implies(z3.ULE(x, 1), l == 0),
            z3.Implies(z3.UGT(x, 1), z3.And(z3.UGE(l, 1), z3.UGT(x, p2(l - 1)), z3.Or(l == 64, z3.ULE(x, p2(l)))))]


def log_facts(x):
    l = LOG(x)
    r = log_defs(x, l, P2) + pow_facts(l) + pow_facts(l - 1)
    if not x.eq(n_): r.append(z3.Implies(z3.ULE(n_, x), z3.ULE(LOG(n_), l)))
    return r


E_ = LOG(n_)


def size_facts(h, e=E_, cnt=CNT, f=F, p2=P2):
    """lemma: the sizes of the levels, for h < 128"""
    return [z3.Implies(z3.UGE(h, 1), z3.ULE(f(h), 1 << 60)), z3.ULE(cnt(h), 1 << 59), z3.Implies(z3.ULE(h, e), z3.And(z3.ULE(p2(e - h), p2(e)), z3.ULE(cnt(h), p2(e - h)), z3.Implies(z3.UGE(h, 1), z3.ULE(f(h) + cnt(h), p2(e) - p2(e - h))))),
            z3.Implies(z3.ULT(h, e), z3.And(z3.UGT(cnt(h), p2(e - 1 - h)), z3.UGE(cnt(h), 2))),
            z3.Implies(z3.UGE(h, e), cnt(h) == 1),
            z3.Implies(z3.And(z3.UGE(h, e), z3.UGE(h, 1)), z3.ULE(f(h) + cnt(h), p2(e) - 1 + (h - e)))]


lim_ = z3.BitVec('limit', 64)
CASES = {'%s, %s' % (a, b): z3.And(x, y)
         for a, x in (('one chunk', n_ == 1), ('even count', z3.And(z3.Extract(0, 0, n_) == 0, n_ != 0)), ('odd count', z3.And(z3.Extract(0, 0, n_) == 1, n_ != 1)))
         for b, y in (('no limit', lim_ == 0), ('limit within the depth', z3.And(lim_ != 0, LOG(lim_) == LOG(n_))), ('deeper limit', z3.And(lim_ != 0, LOG(lim_) != LOG(n_))))}


def level_facts(h):
    """defining equations of a level, h < 128"""
    h = bv(h, 64)
    r = pow_facts(E_ - h) + pow_facts(E_ - h - 1) + [CNT(V(0)) == n_, F(V(0)) == -n_, F(one) == 0, CNT(one) == z3.LShR(n_ + 1, 1), CNT(h + 1) == z3.LShR(CNT(h) + 1, 1), F(h + 1) == F(h) + CNT(h),
         Z(V(0)) == 0, Z(h + 1) == H(Z(h), Z(h))] + size_facts(h) + size_facts(h + 1)
    return [z3.Implies(z3.ULT(h, 128), z3.And(*r))]


def node_facts(h, j):
    """defining equations of node j of level h+1, and the lemma on zero subtrees"""
    h = bv(h, 64); j = bv(j, 64)
    ok = z3.And(z3.ULT(h, 128), z3.ULT(j, 1 << 60))
    r = [T(h + 1, j) == H(T(h, 2 * j), T(h, 2 * j + 1))]
    for x in (2 * j, 2 * j + 1):
        r += [z3.Implies(z3.UGE(x, CNT(h)), T(h, x) == Z(h)), z3.Implies(h == 0, T(h, x) == z3.If(z3.ULT(x, n_), LEAF(x), z3.BitVecVal(0, 256)))]
        r += [z3.Implies(z3.And(z3.UGE(h, 1), z3.ULT(x, CNT(h))), N(F(h) + x) == T(h, x))]
    r.append(z3.Implies(z3.ULT(j, z3.LShR(CNT(h) + 1, 1)), N(F(h) + CNT(h) + j) == T(h + 1, j)))
    return [z3.Implies(ok, z3.And(*r))]


def lemmas(ck, lemma):
    h, j, n, e = z3.BitVecs('h j n e', 64)
    c0, c1, f0, f1 = z3.BitVecs('c0 c1 f0 f1', 64)
    x, l, m = z3.BitVecs('x l m', 64)
    lemma(ck, 'cases-cover-everything', z3.Implies(n_ != 0, z3.Or(*CASES.values())))
    lemma(ck, 'powers-of-two', z3.And(*pow_facts(x, shl)))
    lemma(ck, 'log2ceil-is-monotone', z3.Implies(z3.And(*log_defs(n, e, shl), *log_defs(m, l, shl), z3.ULE(n, m)), z3.ULE(e, l)), 60000)
    lemma(ck, 'log2ceil-of-a-power-of-two', z3.Implies(z3.And(z3.ULE(x, 63), *log_defs(one << x, l, shl)), l == x), 60000)
    lim = z3.And(z3.ULT(n, 1 << 59), n != 0, z3.ULE(e, 59), z3.ULT(h, 128), *log_defs(n, e, shl))
    def S(h, c, f, with_f=True): return z3.And(*size_facts(h, e, lambda _: c, lambda _: f, shl))
    no_f = S(V(0), n, z3.BitVecVal(0, 64))
    lemma(ck, 'level-sizes/base', z3.Implies(lim, z3.And(no_f, S(one, z3.LShR(n + 1, 1), V(0)))), 120000)
    lemma(ck, 'level-sizes/step', z3.Implies(z3.And(lim, z3.UGE(h, 1), S(h, c0, f0), c1 == z3.LShR(c0 + 1, 1), f1 == f0 + c0), S(h + 1, c1, f1)), 120000)
    # zero subtrees: if all nodes of level h from c0 on are z, those of level h+1 from c1 on are H(z, z)
    t = z3.Function('t', B64, B256); z = z3.BitVec('z', 256)
    hyp = [z3.Implies(z3.UGE(x, c0), t(x) == z) for x in (2 * j, 2 * j + 1)]
    lemma(ck, 'zero-subtrees/step', z3.Implies(z3.And(*hyp, z3.ULT(c0, 1 << 60), z3.ULT(j, 1 << 60), c1 == z3.LShR(c0 + 1, 1), z3.UGE(j, c1)), H(t(2 * j), t(2 * j + 1)) == H(z, z)))


# --- contracts of the functions the tree building calls -----------------------------------------------------------------------------------
def backend(ex, st, a, c):
    """a hashing backend: C01-C05"""
    out, src, n = a
    if isinstance(n, int):
        if n == 0: return None
        for i in range(n):
            x = ex.load(st, src.at(64 * i), 32); y = ex.load(st, src.at(64 * i + 32), 32)
            if x is POISON or y is POISON: raise Unsupported('hash of indeterminate bytes')
            ex.store(st, out.at(32 * i), 32, norm(H(bv(x, 256), bv(y, 256))))
        return None
    so = ex.obj(st, src, 'hash_64b_blocks input'); do = ex.obj(st, out, 'hash_64b_blocks output')
    if ex.decide(st, norm2(bv(n, 64) == 0)) is True: return None
    ex.prove(st, z3.ULT(n, 1 << 57), 'Hasher::hash_64b_blocks/requires-count-in-range')
    ex.range_inside(st, so, src, norm(n * 64), 'hash_64b_blocks input')
    ex.range_inside(st, do, out, norm(n * 32), 'hash_64b_blocks output')
    if so.kind != 'seq' or do.kind != 'seq' or so.gs != 32 or do.gs != 32: raise Unsupported('hash_64b_blocks on %s' % so.name)
    si, sr = so.split(src.off); di, dr = do.split(out.off)
    if sr or dr: raise Unsupported('hash_64b_blocks on parts of chunks')
    if src.o == out.o:
        s0 = bv(src.off.expr(), 64); d0 = bv(out.off.expr(), 64)
        ex.prove(st, z3.Or(n == 0, z3.ULE(s0 + 64 * n, d0), z3.ULE(d0 + 32 * n, s0)), 'Hasher::hash_64b_blocks/requires-separate-buffers')
    ct = so.content
    if do.const: ex.prove(st, False, 'memory/writable', 'hash_64b_blocks output')
    def f(d):
        d2 = norm(bv(lin(d).scale(2).expr(), 64)) if not isinstance(d, int) else 2 * d
        return norm(H(bv(ct.get(add64(si, d2)), 256), bv(ct.get(add64(add64(si, d2), 1)), 256)))
    ex.seq_set(st.w(out.o), di, n, f)
    return None


def backend_choice(ex, st, a, c): return FnP('vp_hash_backend')


def log2ceil(ex, st, a, c):
    x = a[0]
    if isinstance(x, int): return max(x - 1, 0).bit_length()
    for z in log_facts(x): st.assume(z)
    if x.decl().name() == 'pow2': st.assume(z3.Implies(z3.ULE(x.arg(0), 63), LOG(x) == x.arg(0)))
    e = norm(z3.Extract(31, 0, LOG(x)))
    WIDE[e.get_id()] = (e, LOG(x))
    return e


def clz(ex, st, a, c):
    y = a[0]
    if isinstance(y, int): return 64 - y.bit_length()
    ex.prove(st, y != M64, 'countl_zero/requires-not-all-ones')
    x = norm(y + 1)
    if isinstance(x, int): return 64 - y.bit_length()
    for z in log_facts(x): st.assume(z)
    w = norm(64 - LOG(x)); e = norm(z3.Extract(31, 0, w))
    WIDE[e.get_id()] = (e, w)
    return e


def bit_ceil(ex, st, a, c):
    x = a[0]
    if isinstance(x, int): return 1 << max(x - 1, 0).bit_length()
    for z in log_facts(x): st.assume(z)
    ex.prove(st, z3.ULE(x, 1 << 63), 'std::bit_ceil/requires-representable')
    return norm(P2(LOG(x)))


OV = [(r'^vp_hash_backend$', backend), (r'Hasher::best_sha256_implementation\(\)$', backend_choice), (r'helpers(::|8)log2ceil', log2ceil), (r'std::countl_zero<unsigned long>|std::__countl_zero<unsigned long>', clz),
      (r'std::bit_ceil<unsigned long>\(unsigned long\)$', bit_ceil)]


# --- hooks --------------------------------------------------------------------------------------------------------------------------------
def chunks(ex, st, p):
    n = models.inp(ex, 'n', 64); st.assume(z3.ULT(n, 1 << 51))
    if ex.o.get('case'):
        for x in (n, lim_):
            for z in log_facts(x): st.assume(z)
        st.assume(CASES[ex.o['case']])
    models.new_vec(ex, st, p, 32, n, CFn(lambda i: norm(LEAF(bv(i, 64)))), 'chunks')


def root(ex, st, p):
    lim = ex.inputs.get(('limit', 64)); n = n_
    x = n if lim is None else z3.If(lim == 0, n, lim)
    D = LOG(n) if lim is None else z3.If(lim == 0, LOG(n), LOG(lim))
    for y in (n,) if lim is None else (n, lim):
        for z in log_facts(y): st.assume(z)
    v = bv(ex.load(st, p, 32), 256)
    s = st
    for h in (D - 1, D):
        for z in level_facts(h) + node_facts(h, V(0)): s.assume(z)
    s.assume(z3.Implies(D == 0, z3.And(T(D, V(0)) == LEAF(V(0)))))
    for h in ex.o.get('_levels', ()):       # name the level the way the loops do
        if is_sym(h) and known(s, h) and ex.check(s, h != D) == 'unsat':
            s.assume(h == D); s.assume(T(h, V(0)) == T(D, V(0)))
            for x in (h, norm(h - 1)):
                for z in level_facts(x) + node_facts(x, V(0)): s.assume(z)
            D = h
            break
    ex.prove(s, norm2(v == T(D, V(0))), 'HashTree::HashTree/ensures-last-node-is-the-SSZ-root')


def known(st, h):
    names = set()
    for c in st.pc: names |= set(syms(c))
    return all(x in names for x in syms(h))


def nodes(ex, st, p):
    m = models.inp(ex, 'm', 64); st.assume(z3.ULT(m, 1 << 51))
    models.new_vec(ex, st, p, 32, m, CFn(lambda i: norm(N(bv(i, 64)))), 'nodes')


def mixed(ex, st, p, ln):
    m = models.inp(ex, 'm', 64)
    ex.prove(st, norm2(bv(ex.load(st, p, 32), 256) == H(N(m - 1), z3.ZeroExt(192, bv(ln, 64)))), 'HashTree::mix_in/ensures-SHA256(root||length)')


def node(ex, st, p, q):
    ex.prove(st, norm2(bv(ex.load(st, p, 32), 256) == N(bv(q, 64))), 'HashTree::mix_in/assigns-only-the-new-node')


HOOKS = {'chunks': chunks, 'root': root, 'nodes': nodes, 'mixed': mixed, 'node': node}


def merk_loops(l):
    """the loops of the tree building work on level h = base + k"""
    k = l.cut.k
    if not any(q.gs == 32 for q in l.seqs.values()): return
    bases = [V(1)]
    for c in l.cells.values():
        if c.form[0] == 'aff' and c.bits() in (32, 64) and (c.form[2] == 1):
            e = c.get(l.st)
            w = widen64(e) if is_sym(e) and e.size() < 64 else e
            if is_sym(w) or (isinstance(w, int) and w < 64): bases.append(bv(w, 64))
    seen = []
    for b in bases:
        if any(z3.simplify(b == x).eq(z3.BoolVal(True)) for x in seen): continue
        seen.append(b)
    l.ex.o['_bases'] = seen
    l.ex.o.setdefault('_levels', []).extend(norm(b + k) for b in seen)
    for b in seen:
        for h in (b, norm(b + k), norm(b + k + 1)):
            for z in level_facts(h): l.st.assume(z)
        tag = 'level %s+k' % str(z3.simplify(b))[:30]
        l.forms.append((tag + ': nodes', lambda k, b=b: norm(CNT(bv(b + k, 64)))))
        l.forms.append((tag + ': start', lambda k, b=b: norm(F(bv(b + k, 64)))))
        l.forms.append((tag + ': start (bytes)', lambda k, b=b: lin(norm(F(bv(b + k, 64)))).scale(32)))
        l.forms.append((tag + ': end (bytes)', lambda k, b=b: lin(norm(F(bv(b + k, 64)))).scale(32).add(lin(norm(CNT(bv(b + k, 64)))).scale(32))))
        def g(i, k, b=b):
            i = bv(i, 64); h = bv(b + k, 64)
            return z3.If(z3.ULT(i, F(h) + CNT(h)), N(i), z3.BitVecVal(0, 256))
        l.contents.append((tag + ': all nodes up to the level', g))
        l.bounds.append((tag + ' <= depth', norm(LOG(n_) - b)))
        if l.ex.inputs.get(('limit', 64)) is not None:
            l.bounds.append((tag + ' <= depth of the limit', norm(LOG(lim_) - b)))
            if not z3.is_bv_value(b) or l.ex.o.get('case', '').startswith('one'):
                l.invs.append((tag + ': one node per level', lambda st, k, b=b: F(bv(b + k, 64)) + CNT(bv(b + k, 64)) == F(b) + CNT(b) + bv(k, 64)))


def seqfacts(ex):
    def f(j, k):
        r = []
        for b in ex.o.get('_bases', ()):
            h = bv(norm(b + bv(k, 64) - (1 if entry(k) else 0)), 64)
            r += level_facts(h) + node_facts(h, norm(bv(j, 64) - F(h) - CNT(h)))
        return r
    return f


def entry(k): return isinstance(k, int) or z3.is_bv_value(k)


def zero_tables(ex, mem):
    """replaces constant tables that the initialisers filled with zero subtrees by their description Z(i)"""
    zs = [z3.BitVecVal(0, 256)]
    for oid, o in list(mem.items()):
        if o.kind != 'cells' or o.size < 64 or o.size % 32 or not oid.startswith('@'): continue
        k = o.size // 32
        while len(zs) < k: zs.append(H(zs[-1], zs[-1]))
        try: ok = all(z3.simplify(bv(o.read(32 * i, 32), 256)).eq(z3.simplify(zs[i])) for i in range(k))
        except Exception: ok = False
        if ok:
            s = Seq(32, k, CFn(lambda i: norm(Z(bv(i, 64)))), o.name, 'global'); s.const = True
            mem[oid] = s; ex.obs.append(Ob_(ex.label + '/zero-subtree-table of %d entries' % k))


def Ob_(n):
    from lib.common import Ob
    return Ob(n, 'ok', 'symbolic execution')


def chunk_of(ex, i, name='in'):
    """the i-th 32-byte chunk of the byte string, zero padded"""
    f = models.uf(ex, name, (64,), 8); ln = models.inp(ex, name + '.size', 64)
    i = bv(i, 64); bs = []
    for b in range(32):
        x = 32 * i + b
        bs.append(z3.If(z3.ULT(x, ln), f(x), z3.BitVecVal(0, 8)))
    return z3.Concat(*reversed(bs))


def pack_loops(l):
    if ('in.size', 64) not in l.ex.inputs: return
    l.contents.append(('the chunks of the input, zero padded', lambda i, k: chunk_of(l.ex, i)))


# HashTree(bytes, limit) against the contract of HashTree(chunks, limit)
def delegate(ex, st, a, c):
    o = models.get_vec(ex, st, a[1])[0] if isinstance(models.get_vec(ex, st, a[1]), tuple) else models.get_vec(ex, st, a[1])
    q = st.mem[o] if isinstance(o, str) else o
    ln = models.inp(ex, 'in.size', 64); w = models.inp(ex, 'w', 64)
    cnt = z3.If(bv(ln, 64) == 0, one, z3.UDiv(bv(ln, 64) + 31, z3.BitVecVal(32, 64)))
    ex.prove(st, norm2(bv(q.n, 64) == cnt), 'HashTree::HashTree(bytes)/ensures-leaves-are-the-packed-bytes')
    x = ex.under(st, z3.ULT(w, cnt))
    ex.prove(x, norm2(bv(q.content.get(w), 256) == chunk_of(ex, w)), 'HashTree::HashTree(bytes)/ensures-leaves-are-the-packed-bytes')
    ex.prove(st, norm2(bv(a[2], 64) == models.inp(ex, 'limit', 64)), 'HashTree::HashTree(bytes)/ensures-limit-passed-on')
    st.ghost['delegated'] = st.ghost.get('delegated', 0) + 1
    models.new_vec(ex, st, a[0], 32, 0, CList([], 256))
    return None


def delegated(ex, st, p, lim): ex.prove(st, st.ghost.get('delegated', 0) == 1, 'HashTree::HashTree(bytes)/ensures-one-tree-over-the-packed-bytes')


HOOKS['delegated'] = delegated
OVB = [(r'^ssz::HashTree::HashTree\(std::vector<std::array<unsigned char, 32', delegate)]
