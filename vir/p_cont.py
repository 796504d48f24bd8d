"""C10, C21: every container type hands exactly the fields of the specification, in order, to the generic operations."""
import os
import z3
from lib import common as C, ssz
from lib.common import Ob
from lib.ssz import U64, Bool, Bytes, BitV, BitL, Vec, Lst, Cont
from . import spec
from .vals import *
from .mem import *
from .ir import Unsupported
from .props import prove


def cpp(t):
    """the C++ type that implements a schema type"""
    if isinstance(t, U64): return 'Slot'
    if isinstance(t, Bool): return 'Boolean'
    if isinstance(t, Bytes): return 'Bytes<%d>' % t.n
    if isinstance(t, BitV): return 'Bitvector<%d>' % t.n
    if isinstance(t, BitL): return 'Bitlist'
    if isinstance(t, Vec): return 'VectorFixedSizedParts<%s, %d>' % (cpp(t.t), t.n)
    if isinstance(t, Lst): return '%s<%s>' % ('ListFixedSizedParts' if t.t.size else 'ListVariableSizedParts', cpp(t.t))
    return t.name


def gen(S):
    o = []
    for n, t in S.items():
        fs = [f for f, _ in t.fields]
        o.append('namespace f_%s { %s }' % (n, ' '.join('ACC(%s)' % f for f in fs)))
        want = 'const ssz::Container* want[] = {%s};' % ', '.join('&f_%s::%s(x)' % (n, f) for f in fs)
        names = 'const char* names[] = {%s};' % ', '.join('"%s"' % f for f in fs)
        k = len(fs)
        o.append('SPEC spec_bin_%s() { Raw<%s> raw; %s& x = *raw; const %s& cx = x; %s' % (n, n, n, n, want))
        for f, ft in t.fields: o.append('TYPE(%s, %s, %s);' % (n, f, cpp(ft)))
        if t.size: o.append('ASSERT(%s::ssz_size == %d, "%s::ssz_size/ensures-sum-of-the-field-sizes");' % (n, t.size, n))
        o.append('ASSERT(cx.%s::get_ssz_size() == %d, "%s::get_ssz_size/ensures-%s");' % (n, t.size or 0, n, 'sum-of-the-field-sizes' if t.size else 'variable'))
        o.append('uint64_t q = vir_u64("q");')
        o.append('vir_hook2("begin", want, %d); { V r = cx.%s::serialize(); vir_hook2("once", "%s::serialize", 0); ASSERT(r.size() == vir_u64("ser.size"), "%s::serialize/ensures-encoding-of-the-fields"); '
                 'if (q < r.size()) ASSERT(r[q] == vir_f8("ser", q, 0), "%s::serialize/ensures-encoding-of-the-fields"); }' % (k, n, n, n, n))
        o.append('vir_hook2("begin", want, %d); { Raw<V> in; vir_bytes(&*in, "in"); vir_hook1("range", &*in); bool r = x.%s::deserialize(in->cbegin(), in->cend()); vir_hook2("once", "%s::deserialize", 1); '
                 'ASSERT(r == vir_bool("des"), "%s::deserialize/ensures-result"); }' % (k, n, n, n))
        o.append('vir_hook2("begin", want, %d); { std::vector<ssz::Chunk> r = cx.%s::hash_tree(); vir_hook2("once", "%s::hash_tree", 2); ASSERT(r.size() == vir_u64("ht.size"), "%s::hash_tree/ensures-tree-of-the-fields"); '
                 'if (q < r.size()) ASSERT(r[q][5] == vir_f8("ht", q, 5), "%s::hash_tree/ensures-tree-of-the-fields"); } }' % (k, n, n, n, n))
        o.append('SPEC spec_txt_%s() { Raw<%s> raw; %s& x = *raw; const %s& cx = x; %s %s' % (n, n, n, n, want, names))
        o.append('vir_hook2("begin", want, %d); vir_hook1("names", names); { Raw<YAML::Node> r; vir_hook1("node", &*r); new (&*r) YAML::Node(cx.%s::encode()); vir_hook2("once", "%s::encode", 3); vir_hook2("encoded", &*r, 0); }' % (k, n, n))
        o.append('vir_hook2("begin", want, %d); vir_hook1("names", names); { Raw<YAML::Node> in; vir_hook1("node", &*in); bool r = x.%s::decode(*in); vir_hook2("once", "%s::decode", 4); ASSERT(r == vir_bool("dcd"), "%s::decode/ensures-result"); } }' % (k, n, n, n))
        ls = [(f, ft) for f, ft in t.fields if isinstance(ft, (Lst, BitL))]
        if ls:
            o.append('SPEC spec_new_%s() { %s x; ' % (n, n) + ' '.join('ASSERT(f_%s::%s(x).limit_ == %dull, "%s.%s/limit");' % (n, f, ft.lim, n, f) for f, ft in ls) + ' }')
    return '\n'.join(o) + '\n'


KIND = ('serialize', 'deserialize', 'hash_tree', 'encode', 'decode')


def h_begin(ex, st, want, n):
    st.ghost['want'] = [ex.load(st, want.at(8 * i), 8) for i in range(n)]
    st.ghost['calls'] = ()


def h_names(ex, st, names):
    from .models import cstr
    st.ghost['names'] = [cstr(ex, st, ex.load(st, names.at(8 * i), 8)) for i in range(len(st.ghost['want']))]


def h_range(ex, st, v): st.ghost['range'] = (ex.load(st, v, 8), ex.load(st, v.at(8), 8))


def h_once(ex, st, nm, kind):
    from .models import cstr
    n = cstr(ex, st, nm)
    ex.prove(st, st.ghost['calls'] == (KIND[kind],), n + '/ensures-ranges-over-the-fields', 'generic operations called: %s' % (st.ghost['calls'],))


def h_node(ex, st, p): st.ghost['node'] = p


def h_encoded(ex, st, p, z):
    v = ex.load(st, p, 8)
    ex.prove(st, is_sym(v) and v.eq(z3.BitVec('encoded', 64)), 'encode/ensures-result', 'node %s' % (v,))


def parts(ex, st, vec, what, named):
    from .models import get_vec, vsize, gstr
    st.ghost['calls'] = st.ghost.get('calls', ()) + (what,)
    gs = 40 if named else 8
    oid, o = get_vec(ex, st, vec); n = vsize(ex, st, vec, gs)
    want = st.ghost['want']
    lab = 'parts-of-' + what
    if not isinstance(n, int): raise Unsupported('number of parts')
    ex.prove(st, n == len(want), '%s/number-of-fields' % lab, '%d parts, %d fields' % (n, len(want)))
    got = [o.content.get(i) for i in range(n)]
    if named:
        names = st.ghost['names']; ps = {}
        for i, e in enumerate(got):
            b = e.c[0][1]; ln = e.c[8][1]
            so = ex.obj(st, b, 'string buffer')
            if not isinstance(ln, int): raise Unsupported('name of a field')
            nm = ''.join(chr(so.content.get(j)) for j in range(ln))
            ex.prove(st, nm not in ps, lab + '/name-occurs-once', nm)
            ps[nm] = e.c[32][1]
        for w, p in zip(names, want):
            ex.prove(st, w in ps and same(ps[w], p), '%s/field-%s' % (lab, w), '%s: %s, wanted %s' % (w, ps.get(w), p))
        return
    for i, w in enumerate(want):
        ex.prove(st, i < n and same(got[i], w), '%s/field-%d' % (lab, i), 'part %s, wanted %s' % (got[i] if i < n else None, w))


def c_ser(ex, st, a, c):
    from .models import uf, inp, new_vec
    parts(ex, st, a[1], 'serialize', False)
    f = uf(ex, 'ser', (64, 64), 8); n = inp(ex, 'ser.size', 64); st.assume(z3.ULT(n, 1 << 56))
    new_vec(ex, st, a[0], 1, n, CFn(lambda i: norm(f(bv(i, 64), z3.BitVecVal(0, 64)))), 'ser')


def c_des(ex, st, a, c):
    from .models import inp, itp
    parts(ex, st, a[2], 'deserialize', False)
    b, e = itp(ex, a[0]), itp(ex, a[1]); wb, we = st.ghost['range']
    ex.prove(st, same(b, wb) and same(e, we), 'parts-of-deserialize/whole-input', '%s %s' % (b, e))
    return inp(ex, 'des', 0)


def c_ht(ex, st, a, c):
    from .models import uf, inp, new_vec
    parts(ex, st, a[1], 'hash_tree', False)
    f = uf(ex, 'ht', (64, 64), 8); n = inp(ex, 'ht.size', 64); st.assume(z3.ULT(n, 1 << 50))
    def el(i): return norm(z3.Concat(*[f(bv(i, 64), z3.BitVecVal(j, 64)) for j in range(31, -1, -1)]))
    new_vec(ex, st, a[0], 32, n, CFn(el), 'ht')


def c_enc(ex, st, a, c):
    parts(ex, st, a[1], 'encode', True)
    ex.store(st, a[0], 8, z3.BitVec('encoded', 64))


def c_dec(ex, st, a, c):
    from .models import inp
    parts(ex, st, a[1], 'decode', True)
    ex.prove(st, same(a[0], st.ghost['node']), 'parts-of-decode/same-node', '%s' % (a[0],))
    return inp(ex, 'dcd', 0)


def c_move_node(ex, st, a, c): ex.store(st, a[0], 8, ex.load(st, a[1], 8))


OV = [(r'^ssz::Container::serialize_\(', c_ser), (r'^ssz::Container::deserialize_\(', c_des), (r'^ssz::Container::hash_tree_\(', c_ht),
      (r'^ssz::Container::encode_\(', c_enc), (r'^ssz::Container::decode_\(', c_dec), (r'^YAML::Node::Node\(YAML::Node (const&|&&)\)', c_move_node),
      (r'^YAML::Node::~Node\(\)', lambda ex, st, a, c: None), (r'^eth::VectorFixedSizedParts<.*>::VectorFixedSizedParts\(\)', lambda ex, st, a, c: None)]
HOOKS = {'begin': h_begin, 'names': h_names, 'range': h_range, 'once': h_once, 'node': h_node, 'encoded': h_encoded}


def unit(ck, preset):
    d = os.path.join(ck.tmp, 'gen_' + preset); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'gen.inc'), 'w').write(gen(ssz.schema(preset)))
    return spec.compile_unit(ck, 's_cont', preset, inc=['-I' + d])


def run(ck, presets, kinds):
    for pr in presets:
        m = unit(ck, pr)
        jobs = []
        for n in ssz.schema(pr):
            for k in kinds:
                if m.fns.get('spec_%s_%s' % (k, n)) is None: continue
                jobs.append(('%s/%s/%s' % (pr, n, {'bin': 'encoding-and-root', 'txt': 'text', 'new': 'construction'}[k]),
                             lambda k=k, n=n: spec.run_spec(m, n, 'spec_%s_%s' % (k, n), overrides=OV, opts={'hooks': HOOKS})))
        spec.run_all(ck, jobs)


@prove("C10")
def p10(ck):
    run(ck, ('minimal', 'mainnet'), ('bin', 'new'))
    ck.assumptions += ['The generic operations serialize_, deserialize_ and hash_tree_ are replaced by their contracts (C11, C12, C16), the element types by theirs (C14-C19).',
                       'The phase-0 schema (lib/ssz.py) is written independently of the repository, except where the repository fixes its own choice: VoluntaryExit and the field names.',
                       'The default constructors of fixed-size vectors are assumed to write only their own object.']
