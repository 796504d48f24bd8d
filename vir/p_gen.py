"""C11, C12, C16, C21: the generic container operations, for fields that are arbitrary objects behind their contracts."""
import itertools, os
import z3
from lib import ssz
from . import spec
from .vals import *
from .mem import *
from .ir import Unsupported
from .models import *
from .props import prove

B64 = z3.BitVecSort(64)
SLOT = {0: 'hash_tree', 1: '~', 2: '~', 3: 'get_ssz_size', 4: 'serialize', 5: 'deserialize', 6: 'encode', 7: 'decode'}
bvs = z3.BitVecVal


def sh(ex): return ex.o['shape']          # one 'f' (fixed-size) or 'v' (variable-size) per field


def part(i): return Ptr(Elem('part', i), 0)


def length(ex, i):
    """size of the encoding of field i, as the difference of two boundaries: sums of sizes are boundaries again"""
    F, P, tot = layout(ex)
    if sh(ex)[i] == 'f': return norm(bv(lin(F[i + 1]).add(lin(F[i]), -1).expr(), 64))
    return norm(bv(lin(P[i + 1]).add(lin(P[i]), -1).expr(), 64))


def content(ex, i): return uf(ex, 'field%d' % i, (64,), 8)
def accepts(ex, i): return uf(ex, 'field%d.accepts' % i, (64, 64), 0)


def h_parts(ex, st, v):
    s = sh(ex)
    sizes(ex, st)
    new_vec(ex, st, v, 8, len(s), CList([part(i) for i in range(len(s))], 64), 'parts')
    st.ghost['calls'] = ()


def sizes(ex, st):
    """arbitrary sizes: non-zero for fixed-size fields, the whole encoding below 2^32 bytes"""
    s = sh(ex); F, P, tot = layout(ex)
    for i, k in enumerate(s):
        if k == 'f': st.assume(z3.ULT(F[i], F[i + 1]))
        else: st.assume(z3.ULE(P[i], P[i + 1]))
        for x in (F[i], F[i + 1], P[i], P[i + 1]): st.assume(z3.ULT(x, 1 << 32))


def layout(ex):
    """F[i]: position of field i in the fixed part (F[n]: its end), P[i]: position of the encoding of the variable-size field i, total length"""
    if hasattr(ex, 'lay_'): return ex.lay_
    s = sh(ex); F = [bvs(0, 64)]
    for i, k in enumerate(s): F.append(inp(ex, 'end-of-field%d' % i, 64) if k == 'f' else norm_(F[-1] + 4))
    P = [F[-1]]
    for i, k in enumerate(s): P.append(inp(ex, 'end-of-field%d' % i, 64) if k == 'v' else P[-1])
    ex.fixed = F[-1]
    ex.lay_ = (F, P, P[-1])
    return ex.lay_


def norm_(e): return bv(norm(e), 64)


def vcall(ex, st, f, args, rt):
    w = SLOT.get(f.slot)
    e = f.e
    if w == 'get_ssz_size': return length(ex, e.idx) if sh(ex)[e.idx] == 'f' else 0
    if w == 'serialize':
        if not same(args[1], part(e.idx)): raise Unsupported('receiver')
        c = content(ex, e.idx)
        new_vec(ex, st, args[0], 1, length(ex, e.idx), CFn(lambda i: norm(c(bv(i, 64)))), 'field%d' % e.idx); return None
    if w == 'deserialize':
        a, b = itp(ex, args[1]), itp(ex, args[2]); bo, eo = st.ghost['range']
        ok = isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == bo.o and b.o == bo.o
        ex.prove(st, ok, 'call/deserialize/slice-of-the-input')
        x = norm(bv(a.off.add(bo.off, -1).expr(), 64)); y = norm(bv(b.off.add(bo.off, -1).expr(), 64)); n = norm(bv(eo.off.add(bo.off, -1).expr(), 64))
        ex.prove(st, norm2(z3.And(z3.ULE(bv(x, 64), bv(y, 64)), z3.ULE(bv(y, 64), bv(n, 64)))), 'call/deserialize/requires-slice-inside-the-input', 'field %d' % e.idx)
        st.ghost['calls'] += ((e.idx, x, y),)
        return norm(accepts(ex, e.idx)(bv(x, 64), bv(y, 64)))
    if w == 'hash_tree':
        n = inp(ex, 'field%d.tree' % e.idx, 64); st.assume(z3.And(z3.UGE(n, 1), z3.ULT(n, 1 << 50)))
        r = z3.BitVec('root%d' % e.idx, 256); x = uf(ex, 'field%d.node' % e.idx, (64,), 256)
        new_vec(ex, st, args[0], 32, n, CFn(lambda i: norm(z3.If(bv(i, 64) == n - 1, r, x(bv(i, 64))))), 'tree'); return None
    if w == 'encode':
        ex.store(st, args[0], 8, ('text', e.idx)); return None
    if w == 'decode':
        x = ex.load(st, args[1], 8)
        st.ghost['calls'] += ((e.idx, x),)
        return z3.Bool('field%d.reads' % e.idx)
    raise Unsupported('virtual call of slot %s' % w)


def at(ex, st, c, i):
    """element i of a concatenation, the segment it lies in decided on this path where possible"""
    while isinstance(c, CSeg):
        d = sub64(i, c.start)
        r = ex.decide(st, ult(d, c.n))
        if r is None: return c.get(i)
        if r:
            x = c.f
            v = x(d)
            g = getattr(x, 'seq', None)
            return at(ex, st, g[0], norm(bv(lin(g[1]).add(lin(d)).expr(), 64))) if g else v
        c = c.base
    return c.get(i)


def h_ser(ex, st, r):
    F, P, tot = layout(ex); s = sh(ex)
    _, o = get_vec(ex, st, r); n = vsize(ex, st, r, 1)
    if not s: ex.prove(st, norm2(bv(n, 64) == 0), 'serialize_/ensures-nothing-for-no-fields'); return
    ex.prove(st, norm2(bv(n, 64) == tot), 'serialize_/ensures-length')
    t = bvs(0, 64)
    t = z3.BitVec('t', 64)
    for i, k in enumerate(s):
        st2 = ex.under(st, z3.ULT(t, bv(length(ex, i), 64)))
        if k == 'f': ex.prove(st2, norm2(bv(at(ex, st2, o.content, norm(F[i] + t)), 8) == content(ex, i)(t)), 'serialize_/ensures-fixed-field', 'field %d' % i)
        else:
            for b in range(4): ex.prove(st, norm2(bv(at(ex, st, o.content, norm(F[i] + b)), 8) == z3.Extract(8 * b + 7, 8 * b, P[i])), 'serialize_/ensures-offset', 'field %d byte %d' % (i, b))
            ex.prove(st2, norm2(bv(at(ex, st2, o.content, norm(P[i] + t)), 8) == content(ex, i)(t)), 'serialize_/ensures-variable-field', 'field %d' % i)


def h_range(ex, st, v): st.ghost['range'] = (ex.load(st, v, 8), ex.load(st, v.at(8), 8))


def accept(ex, n, inb):
    """the specification of decoding: n bytes inb"""
    F, P, tot = layout(ex); s = sh(ex)
    cs = [z3.ULE(ex.fixed, n)]
    vs = [i for i, k in enumerate(s) if k == 'v']
    off = {i: z3.ZeroExt(32, z3.Concat(*[inb(F[i] + b) for b in (3, 2, 1, 0)])) for i in vs}
    sl = {}
    for i, k in enumerate(s):
        if k == 'f': sl[i] = (F[i], F[i] + bv(length(ex, i), 64))
    for a, b in zip(vs, vs[1:] + [None]):
        e = off[b] if b is not None else n
        sl[a] = (off[a], e); cs.append(z3.ULE(off[a], e))
    if vs: cs.append(off[vs[0]] == ex.fixed)
    else: cs.append(ex.fixed == n)
    return cs, [accepts(ex, i)(*sl[i]) for i in range(len(s))], sl


def h_des(ex, st, z, r):
    n = inp(ex, 'in.size', 64); inb = uf(ex, 'in', (64,), 8)
    cs, oks, sl = accept(ex, n, inb)
    r = bl(r); R = z3.BoolVal(r) if isinstance(r, bool) else r
    both = z3.And(*(cs + oks))
    s1 = ex.under(st, z3.Not(both))
    ex.prove(s1, norm2(z3.Not(R)), 'deserialize_/ensures-nothing-else-accepted')
    st.assume(both)
    ex.prove(st, norm2(R), 'deserialize_/ensures-every-encoding-accepted')
    calls = st.ghost['calls']
    ex.prove(st, sorted(c[0] for c in calls) == list(range(len(sh(ex)))), 'deserialize_/ensures-every-field-decoded-once', str([c[0] for c in calls]))
    for i, x, y in calls:
        ex.prove(st, norm2(z3.And(bv(x, 64) == sl[i][0], bv(y, 64) == sl[i][1])), 'deserialize_/ensures-field-gets-its-own-slice', 'field %d' % i)


def roundtrip(ex, st):
    """the layout of serialize_ is accepted by deserialize_ and gives every field its own encoding"""
    F, P, tot = layout(ex); s = sh(ex)
    inb = uf(ex, 'enc', (64,), 8)
    sizes(ex, st)
    for i, k in enumerate(s):
        if k == 'v':
            for b in range(4): st.assume(inb(F[i] + b) == z3.Extract(8 * b + 7, 8 * b, P[i]))
    for i, k in enumerate(s): st.assume(accepts(ex, i)(F[i] if k == 'f' else P[i], (F[i] if k == 'f' else P[i]) + bv(length(ex, i), 64)))
    cs, oks, sl = accept(ex, tot, inb)
    ex.prove(st, norm2(z3.And(*(cs + oks))), 'lemma/encoding-is-accepted')
    for i, k in enumerate(s): ex.prove(st, norm2(z3.And(sl[i][0] == (F[i] if k == 'f' else P[i]), sl[i][1] == (F[i] if k == 'f' else P[i]) + bv(length(ex, i), 64))), 'lemma/slice-of-a-field-is-its-encoding', 'field %d' % i)


# --- trees: HashTree by its contract (C07, C09) ----------------------------------------------------------------------------------------
def t_chunks(ex, st, a, c):
    oid, o = get_vec(ex, st, a[1]); n = vsize(ex, st, a[1], 32)
    mk_tree(ex, st, a[0], ('chunks', n, o.content, a[2]))


def t_bytes(ex, st, a, c):
    oid, o = get_vec(ex, st, a[1]); n = vsize(ex, st, a[1], 1)
    mk_tree(ex, st, a[0], ('bytes', n, o.content, a[2]))


def mk_tree(ex, st, p, what):
    ts = st.ghost.get('trees', ())
    ex.store(st, p, 8, 1000 + len(ts)); st.ghost['trees'] = ts + ((what, ()),)


def tid(ex, st, p):
    v = ex.load(st, p, 8)
    if not isinstance(v, int): raise Unsupported('tree object')
    return v - 1000


def t_mix(ex, st, a, c):
    k = tid(ex, st, a[0]); ts = list(st.ghost['trees']); ts[k] = (ts[k][0], ts[k][1] + (a[1],)); st.ghost['trees'] = tuple(ts)


def t_nodes(ex, st, a, c):
    k = tid(ex, st, a[1]); w, m = st.ghost['trees'][k]
    x = uf(ex, 'tree%d.%d' % (k, len(m)), (64,), 256); n = inp(ex, 'tree%d.size' % k, 64); st.assume(z3.And(z3.UGE(n, 1), z3.ULT(n, 1 << 50)))
    st.ghost['result'] = (k, len(m))
    new_vec(ex, st, a[0], 32, n, CFn(lambda i: norm(x(bv(i, 64)))), 'tree')


TREE = [(r'^ssz::HashTree::HashTree\(std::vector<std::array<unsigned char, 32ul>.*, unsigned long\)', t_chunks),
        (r'^ssz::HashTree::HashTree\(std::vector<unsigned char, .*, unsigned long\)', t_bytes), (r'^ssz::HashTree::mix_in\(', t_mix),
        (r'^ssz::HashTree::hash_tree\(\)', t_nodes), (r'^ssz::HashTree::~HashTree', lambda ex, st, a, c: None)]


def returned_tree(ex, st, r, name):
    """obligation: r is exactly the node vector of the last tree that was asked for; gives its description"""
    if 'result' not in st.ghost: ex.prove(st, False, name + '/ensures-result-is-a-tree', 'no tree was built'); return None
    k, m = st.ghost['result']
    _, o = get_vec(ex, st, r); n = vsize(ex, st, r, 32); q = z3.BitVec('q', 64)
    x = uf(ex, 'tree%d.%d' % (k, m), (64,), 256)
    ex.prove(st, norm2(z3.And(bv(n, 64) == inp(ex, 'tree%d.size' % k, 64), z3.Implies(z3.ULT(q, bv(n, 64)), bv(o.content.get(q), 256) == x(q)))), name + '/ensures-result-is-the-tree')
    w, mm = st.ghost['trees'][k]
    return w, mm[:m]


def h_ht(ex, st, r):
    s = sh(ex)
    if not s: return
    t = returned_tree(ex, st, r, 'hash_tree_')
    if t is None: return
    (kind, n, ct, lim), mix = t
    ex.prove(st, kind == 'chunks' and same(n, len(s)), 'hash_tree_/ensures-one-chunk-per-field', '%s %s' % (kind, n))
    for i in range(len(s)): ex.prove(st, norm2(bv(ct.get(i), 256) == z3.BitVec('root%d' % i, 256)), 'hash_tree_/ensures-chunk-is-the-root-of-the-field', 'field %d' % i)
    ex.prove(st, norm2(z3.Or(bv(lim, 64) == 0, bv(lim, 64) == len(s))), 'hash_tree_/ensures-no-limit')
    ex.prove(st, mix == (), 'hash_tree_/ensures-nothing-mixed-in')


def h_array(ex, st, p):
    for i in range(len(sh(ex))): ex.store(st, p.at(8 * i), 8, part(i))
    st.ghost['calls'] = ()


def h_root(ex, st, p):
    v = from_bytes([ex.load(st, p.at(j), 1) for j in range(32)])
    ex.prove(st, norm2(bv(v, 256) == z3.BitVec('root0', 256)), 'hash_tree_root/ensures-last-node')


def h_default(ex, st, r):
    t = returned_tree(ex, st, r, 'Container::hash_tree')
    if t is None: return
    (kind, n, ct, lim), mix = t; q = z3.BitVec('t', 64)
    ex.prove(st, kind == 'bytes' and norm2(bv(n, 64) == bv(length(ex, 0), 64)), 'Container::hash_tree/ensures-tree-over-the-encoding')
    ex.prove(ex.under(st, z3.ULT(q, bv(n, 64))), norm2(bv(at(ex, st, ct, q), 8) == content(ex, 0)(q)), 'Container::hash_tree/ensures-tree-over-the-encoding')
    ex.prove(st, norm2(bv(lim, 64) == 0), 'Container::hash_tree/ensures-no-limit')
    ex.prove(st, mix == (), 'Container::hash_tree/ensures-nothing-mixed-in')


HOOKS = {'dflt': h_default, 'parts': h_parts, 'ser': h_ser, 'range': h_range, 'des': h_des, 'ht': h_ht, 'array': h_array, 'root': h_root}


def shapes():
    """field kinds of every container type, and every sequence of at most five fields"""
    r = {}
    for pr in ('minimal', 'mainnet'):
        for n, t in ssz.schema(pr).items():
            r.setdefault(''.join('f' if ft.size else 'v' for _, ft in t.fields), []).append(n)
    for k in range(6):
        for x in itertools.product('fv', repeat=k): r.setdefault(''.join(x), [])
    return {k: sorted(set(v)) for k, v in r.items()}


def job(m, entry, s, label, **kw):
    return ('%s/%s' % (label, s or 'no-fields'), lambda: spec.run_spec(m, '%s[%s]' % (label, s), entry, overrides=TREE, opts=dict({'hooks': HOOKS, 'vcall': vcall, 'shape': s, 'unroll': 64, 'lia': True}, **kw)))


def lemma_job(m, s):
    from . import ex as X, models
    def f():
        e = X.Ex(m, 'roundtrip[%s]' % s, (), models.MODELS, {'shape': s})
        st = X.State(); st.fr = []; st.mem = {}; st.own = set(); st.pc = []; st.exc = None; st.abs = False; st.terms = []; st.ghost = {}; st.end = None; st.facts = set(); st.keep = []
        roundtrip(e, st)
        return {'label': e.label, 'bodies': [], 'models': [], 'contracts': [], 'time': e.qt, 'queries': e.qn, 'loops': [], 'backends': e.backends, 'stime': e.qt, 'slow': [], 'obs': e.obs}
    return ('roundtrip/%s' % s, f)


GEN_NOTE = 'The fields are arbitrary objects that meet the contracts of their virtual functions (C14-C19). serialize_, deserialize_ and hash_tree_ are verified for any number of fields of any kinds (loops over the fields cut at their header, sums of lengths and the links between variable-size fields are ghost functions given by their defining equations, instantiated where needed), and besides with the loops executed completely for every field kind sequence that occurs in a container type and every sequence of at most five fields.'


@prove('C11')
def p11(ck):
    from . import p_sym
    from .props import lemma
    m = spec.compile_unit(ck, 's_gen')
    p_sym.lemmas(ck, lemma)
    p_sym.run(ck, [job(m, 'spec_ser', s, 'serialize_') for s in shapes()], 'ser', m)
    ck.assumptions += [GEN_NOTE, 'The total length of an encoding is below 2^32 (an SSZ offset has four bytes).']


@prove('C12')
def p12(ck):
    from . import p_sym
    from .props import lemma
    m = spec.compile_unit(ck, 's_gen')
    p_sym.lemmas(ck, lemma); p_sym.roundtrip(ck, lemma)
    p_sym.run(ck, [job(m, 'spec_des', s, 'deserialize_') for s in shapes()] + [lemma_job(m, s) for s in shapes() if s], 'des', m)
    ck.assumptions += [GEN_NOTE, 'Sizes of fixed-size parts below 2^32 with a sum below 2^32; input below 2^56 bytes.']


# --- structured text (YAML): nodes by the contract of yaml-cpp -----------------------------------------------------------------------------
# a node is a number; st.ghost['maps'] gives the entries that were assigned through node[key] = value, in order
def node_id(ex, st, p): return ex.load(st, p, 8)


def sname(ex, st, p):
    _, o = gstr(ex, st, p); n = ex.load(st, p.at(8), 8)
    b = [o.content.get(i) for i in range(n)] if isinstance(n, int) else None
    if b is None or any(not isinstance(x, int) for x in b): raise Unsupported('key of a map')
    return ''.join(map(chr, b))


def n_new(ex, st, a, c):
    k = st.ghost.get('nodes', 0) + 1; st.ghost['nodes'] = k
    ex.store(st, a[0], 8, ('node', k)); st.ghost['maps'] = dict(st.ghost.get('maps', {}), **{str(k): ()})


def n_copy(ex, st, a, c): ex.store(st, a[0], 8, node_id(ex, st, a[1]))


def n_index(ex, st, a, c):
    n = node_id(ex, st, a[1])
    ex.store(st, a[0], 8, ('entry', n, sname(ex, st, a[2])))


def n_assign(ex, st, a, c):
    l, r = node_id(ex, st, a[0]), node_id(ex, st, a[1])
    if not (isinstance(l, tuple) and l[0] == 'entry' and l[1][0] == 'node'): raise Unsupported('assignment to a node')
    k = str(l[1][1]); ms = dict(st.ghost['maps'])
    ms[k] = tuple(x for x in ms[k] if x[0] != l[2]) + ((l[2], r),)
    st.ghost['maps'] = ms
    return a[0]


YAML = [(r'^YAML::Node::Node\(\)', n_new), (r'^YAML::Node::Node\(YAML::Node (const&|&&)\)', n_copy), (r'^YAML::Node::~Node\(\)', lambda ex, st, a, c: None),
        (r'YAML::Node::operator\[\]<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > ?>\(', n_index),
        (r'^YAML::Node::operator=\(YAML::Node (const&|&&)\)', n_assign)]


def h_encoded(ex, st, r, names):
    n = len(sh(ex)); nm = [cstr(ex, st, ex.load(st, names.at(8 * i), 8)) for i in range(n)]
    v = node_id(ex, st, r)
    got = st.ghost['maps'].get(str(v[1])) if isinstance(v, tuple) and v[0] == 'node' else None
    ex.prove(st, got is not None and len(got) == n, 'encode_/ensures-one-entry-per-field', str(got))
    if got is None: return
    d = dict(got)
    for i, x in enumerate(nm): ex.prove(st, d.get(x) == ('text', i), 'encode_/ensures-entry-is-the-text-form-of-the-field', '%s: %s' % (x, d.get(x)))


def h_innode(ex, st, p): ex.store(st, p, 8, ('input',))


def h_decoded(ex, st, names, r):
    n = len(sh(ex)); nm = [cstr(ex, st, ex.load(st, names.at(8 * i), 8)) for i in range(n)]
    r = bl(r); R = z3.BoolVal(r) if isinstance(r, bool) else r
    reads = z3.And(*[z3.Bool('field%d.reads' % i) for i in range(n)]) if n else z3.BoolVal(True)
    for i, x in st.ghost['calls']:
        ex.prove(st, x == ('entry', ('input',), nm[i]), 'decode_/ensures-field-is-read-from-its-own-entry', 'field %d from %s' % (i, x))
    s1 = ex.under(st, z3.Not(reads)) if n else None
    if n: ex.prove(s1, norm2(z3.Not(R)), 'decode_/ensures-fails-when-a-field-cannot-be-read')
    st.assume(reads)
    ex.prove(st, norm2(R), 'decode_/ensures-succeeds-when-every-field-can-be-read')
    ex.prove(st, sorted(i for i, x in st.ghost['calls']) == list(range(n)), 'decode_/ensures-every-field-is-read-once', str(st.ghost['calls']))


HOOKS.update({'encoded': h_encoded, 'innode': h_innode, 'decoded': h_decoded})


def gen_text():
    """one call of each generic text operation per container type, with its field names"""
    o = []
    for n, t in ssz.schema('minimal').items():
        fs = [f for f, _ in t.fields]; k = len(fs)
        nm = 'const char* names[] = {%s};' % ', '.join('"%s"' % f for f in fs)
        o.append('SPEC spec_enc_%s() { const ssz::Container* p[%d]; vir_hook1("array", p); %s YAML::Node r = ssz::Container::encode_({%s}); vir_hook2("encoded", &r, (uint64_t)names); }'
                 % (n, k, nm, ', '.join('{"%s", p[%d]}' % (f, i) for i, f in enumerate(fs))))
        o.append('SPEC spec_dec_%s() { ssz::Container* p[%d]; vir_hook1("array", p); %s Raw<YAML::Node> in; vir_hook1("innode", &*in); bool r = ssz::Container::decode_(*in, {%s}); vir_hook2("decoded", names, r); }'
                 % (n, k, nm, ', '.join('{"%s", p[%d]}' % (f, i) for i, f in enumerate(fs))))
    return '\n'.join(o) + '\n'


def text_jobs(ck):
    d = os.path.join(ck.tmp, 'gentext'); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'gen.inc'), 'w').write(gen_text())
    m = spec.compile_unit(ck, 's_gen', defs=['GEN'], inc=['-I' + d])
    j = []
    for n, t in ssz.schema('minimal').items():
        s = 'x' * len(t.fields)
        for k, w in (('enc', 'encode_'), ('dec', 'decode_')):
            j.append(('%s/%s' % (w, n), lambda k=k, n=n, s=s: spec.run_spec(m, n, 'spec_%s_%s' % (k, n), overrides=YAML, opts={'hooks': HOOKS, 'vcall': vcall, 'shape': s, 'unroll': 64})))
    return j


# --- integers, booleans, vectors and lists: yaml-cpp's conversions by contract
def y_enc(k):
    def f(ex, st, a, c): ex.store(st, a[0], 8, (k, a[1] if k in ('seq', 'elem') or not isinstance(a[1], Ptr) else ex.load(st, a[1], k)))
    return f


def y_dec(k):
    def f(ex, st, a, c):
        nd, x = (a[1], a[0]) if k == 'elem' else (a[0], a[1])
        ex.prove(st, node_id(ex, st, nd) == ('input',), 'decode/ensures-reads-the-given-node')
        ok = inp(ex, 'readable', 0); good = k in ('seq', 'elem') or ex.split(st, ok)
        ex.prove(st, 'target' not in st.ghost, 'decode/ensures-reads-it-once'); st.ghost['target'] = x
        if k in ('seq', 'elem'): return ok
        if not good:
            v = inp(ex, 'left-over', 8 * k); ex.store(st, x, k, v); return 0
        ex.store(st, x, k, inp(ex, 'node.value', 64) if k == 8 else norm(z3.If(inp(ex, 'node.flag', 0), B8(1), B8(0)))); return 1
    return f


def B8(v): return z3.BitVecVal(v, 8)


def sameptr(p, q): return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o and p.off.const() and q.off.const() and p.off.c == q.off.c


def h_number(ex, st, r, v):
    got = ex.load(st, r, 8); ok = isinstance(got, tuple) and got[0] in (1, 8) and not isinstance(got[1], Ptr)
    ex.prove(st, ok, 'encode/ensures-returns-the-value-it-made', str(got))
    if ok: w = 8 * got[0]; ex.prove(st, norm2(z3.ZeroExt(64 - w, bv(got[1], w)) == bv(v, 64)) if w < 64 else norm2(bv(got[1], 64) == bv(v, 64)), 'encode/ensures-node-holds-the-value')


def y_from(k, nm):
    def f(ex, st, r, p):
        got = ex.load(st, r, 8)
        ex.prove(st, isinstance(got, tuple) and got[0] == k and sameptr(got[1], p), nm, str(got))
    return f


def y_read(nm):
    def f(ex, st, p): ex.prove(st, sameptr(st.ghost.get('target'), p), nm, str(st.ghost.get('target')))
    return f


HOOKS.update({'number': h_number, 'seqnode': y_from('seq', 'encode/ensures-sequence-of-the-elements'), 'convnode': y_from('elem', 'convert/ensures-text-of-the-element'),
              'seqread': y_read('decode/ensures-reads-into-the-elements'), 'convread': y_read('convert/ensures-reads-into-the-element')})
CONV = [(r'^YAML::convert<unsigned long.*>::encode\(', y_enc(8)), (r'^YAML::convert<unsigned long.*>::decode\(', y_dec(8)),
        (r'^YAML::convert<bool.*>::encode\(', y_enc(1)), (r'^YAML::convert<bool.*>::decode\(', y_dec(1)),
        (r'^YAML::convert<std::(vector|array)<EL<.*>::encode\(', y_enc('seq')), (r'^YAML::convert<std::(vector|array)<EL<.*>::decode\(', y_dec('seq')),
        (r'^EL<\d+ul>::encode\(\) const', y_enc('elem')), (r'^EL<\d+ul>::decode\(', y_dec('elem'))] + YAML


def conv_jobs(ck):
    m = spec.compile_unit(ck, 's_yaml')
    return [('%s/%s' % (k, n), lambda k=k, n=n: spec.run_spec(m, '%s/%s' % (k, n), 'spec_%s_%s' % (n, k), overrides=CONV, opts={'hooks': HOOKS, 'unroll': 16}))
            for n in ('slot', 'bool', 'vec', 'lst', 'var', 'conv') for k in ('node', 'read')]


@prove('C21')
def p21(ck):
    from . import p_cont
    spec.run_all(ck, text_jobs(ck) + conv_jobs(ck))
    p_cont.run(ck, ('minimal', 'mainnet'), ('txt',))
    ck.assumptions += ['yaml-cpp: a default-constructed node is an empty map, node[key] = value sets the entry of that key and no other, node[key] of the input denotes that entry; printing and parsing of documents is outside.',
                       'The text form of each field is its own encode/decode (C20 for byte arrays and bit fields).', 'yaml-cpp\'s convert<uint64_t>, convert<bool>, convert<std::vector<T>> and convert<std::array<T, N>> enter by contract: encode gives the text of the value or the sequence of the elements\' texts, decode fails or stores the value of the node. What they do inside is only exercised by the bounded runs.',
                       'The number of fields is a constant of the type, so the loops over fields are executed completely.']


