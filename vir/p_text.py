"""C20: hexadecimal text of byte arrays and bit fields."""
import z3
from . import spec
from .vals import *
from .mem import *
from .ir import Unsupported
from .models import *
from .props import prove
from .p_gen import YAML, node_id, B64
from .p_list import boolz


Z = z3.BitVecVal


def HEX(ex): return uf(ex, 'digit-value', (8,), 8)
def TEXT(ex): return uf(ex, 'text', (64,), 8)


def hexof(ex, st, c):
    """contract of hextoint (proved by spec_digit for every character): a value below 16"""
    c = bv(c, 8); v = HEX(ex)(c); st.assume(z3.ULT(v, 16))
    return norm(v)


def o_hex(ex, st, a, c): return norm(z3.ZeroExt(24, bv(hexof(ex, st, ex.needed(a[0])), 8)))


DIGIT = [(r'^helpers::hextoint\(char\)', o_hex)]


def ser(ex): return uf(ex, 'ser', (64, 64), 8)


def o_ser(ex, st, a, c):
    """contract of Bitlist::serialize: some bytes (C17 says which)"""
    n = inp(ex, 'ser.size', 64); st.assume(z3.ULT(n, 1 << 48)); f = ser(ex)
    new_vec(ex, st, a[0], 1, n, CFn(lambda i: norm(f(bv(i, 64), Z(0, 64)))), 'ser')


def ACC(ex): return inp(ex, 'encodes-a-bit-list', 0)


def o_des(ex, st, a, c):
    b, e = itp(ex, a[1]), itp(ex, a[2]); n = inp(ex, 'text.size', 64)
    m = norm(bv(e.off.add(b.off, -1).expr(), 64))
    ex.prove(st, b.o == e.o, 'call/deserialize/one-range')
    ex.prove(st, norm2(bv(m, 64) * 2 + 2 == n), 'from_hexstring/ensures-one-byte-per-pair-of-digits')
    q = inp(ex, 'q', 64); s = ex.under(st, z3.ULT(q, bv(m, 64)))
    if s is not None:
        o = ex.obj(s, b, 'parsed bytes'); got = o.content.get(norm(bv(b.off.expr(), 64) + q))
        t = lambda i: bv(hexof(ex, s, norm(TEXT(ex)(i))), 8)
        ex.prove(s, norm2(bv(got, 8) == t(2 + 2 * q) * 16 + t(3 + 2 * q)), 'from_hexstring/ensures-bytes-are-the-digit-values-in-order')
    st.ghost['parsed'] = True
    return ACC(ex)


def h_blfrom(ex, st, t, r):
    r = bv(r, 64); good = z3.Extract(1, 1, r) == 1; threw = z3.Extract(0, 0, r) == 1
    ex.prove(st, norm2(z3.Implies(z3.Not(good), threw)), 'Bitlist::from_hexstring/ensures-rejects-missing-prefix-and-odd-length')
    if st.ghost.get('parsed'): ex.prove(st, norm2(z3.Implies(good, threw == z3.Not(ACC(ex)))), 'Bitlist::from_hexstring/ensures-fails-exactly-when-the-bytes-encode-no-bit-list')
    else: ex.prove(st, norm2(z3.Not(good)), 'Bitlist::from_hexstring/ensures-well-formed-text-is-decoded')


# --- structured text ---------------------------------------------------------------------------------------------------------------------
def o_tostr(ex, st, a, c):
    n = inp(ex, 'form.size', 64); st.assume(z3.ULT(n, 1 << 48)); f = uf(ex, 'form', (64,), 8)
    new_str(ex, st, a[0], n, CFn(lambda i: norm(f(bv(i, 64)))), 'text form')


def is_form(ex, st, p, nm, size):
    _, o = gstr(ex, st, p); i = inp(ex, 'qc', 64); s = ex.under(st, z3.ULT(i, inp(ex, size, 64)))
    return z3.And(bv(o.n, 64) == inp(ex, size, 64), z3.Implies(z3.ULT(i, inp(ex, size, 64)), bv(o.content.get(i), 8) == uf(ex, nm, (64,), 8)(i)))


def o_yenc(ex, st, a, c):
    ex.prove(st, norm2(is_form(ex, st, a[1], 'form', 'form.size')), 'encode/ensures-scalar-is-the-text-form')
    ex.store(st, a[0], 8, ('scalar',))


def h_outnode(ex, st, r): ex.prove(st, ex.load(st, r, 8) == ('scalar',), 'encode/ensures-returns-the-scalar')


def o_ydec(ex, st, a, c):
    n = inp(ex, 'node.size', 64); st.assume(z3.ULT(n, 1 << 48)); f = uf(ex, 'node', (64,), 8)
    ok = inp(ex, 'node-is-scalar', 0)
    if not ex.split(st, ok): return 0
    oid, o = gstr(ex, st, a[1]); st.w(oid).content = CFn(lambda i: norm(f(bv(i, 64)))); sset(ex, st, a[1], oid, n)
    return 1


def o_fromstr(ex, st, a, c):
    ex.prove(st, norm2(is_form(ex, st, a[1], 'node', 'node.size')), 'decode/ensures-reads-the-text-of-the-node')
    ex.prove(st, 'read' not in st.ghost, 'decode/ensures-reads-it-once'); st.ghost['read'] = a[0]


def h_inread(ex, st, b, r):
    R = boolz(r)
    ex.prove(st, norm2(R == inp(ex, 'node-is-scalar', 0)), 'decode/ensures-fails-exactly-when-the-node-is-no-text')
    s = ex.under(st, inp(ex, 'node-is-scalar', 0))
    if s is not None: ex.prove(s, same(s.ghost.get('read'), b), 'decode/ensures-reads-into-this-value')


HOOKS = {'blfrom': h_blfrom, 'outnode': h_outnode, 'inread': h_inread}
NODE = [(r'^YAML::convert<std::__cxx11::basic_string<.*>::encode\(', o_yenc), (r'^YAML::convert<std::__cxx11::basic_string<.*>::decode\(', o_ydec),
        (r'^eth::(Bytes<8ul>|Bitvector<4u>|Bitlist)::to_string(\[abi:cxx11\])?\(\) const', o_tostr), (r'^eth::(Bytes<8ul>|Bitvector<4u>|Bitlist)::from_(hex)?string\(', o_fromstr)] + YAML
BY = (1, 3, 4, 8, 20, 32, 48, 96)
BVN = (1, 4, 7, 8, 9, 16, 21, 33)


def peel(m):
    def p(ex, fr): return m if 'from_hexstring' in ex.dem(fr.fn.name) else 0
    return p


@prove('C20')
def p20(ck):
    m = spec.compile_unit(ck, 's_text')

    def job(n, label=None, ov=DIGIT, **kw):
        return (label or n, lambda: spec.run_spec(m, label or n, 'spec_' + n, overrides=ov, opts=dict({'hooks': HOOKS, 'unroll': 256, 'skolems': ['q']}, **kw)))
    js = [job('digit', ov=[])]
    for n in reversed(BY): js += [job('from_%d' % n), job('to_%d' % n)]
    for n in BVN: js += [job('bv_to_%d' % n), job('bv_from_%d' % n, unroll=(n + 7) // 8 + 1, peel=peel((n + 7) // 8))]
    js += [job('bl_to', ov=[(r'^eth::Bitlist::serialize\(\) const', o_ser)], unroll=16), job('bl_from', ov=DIGIT + [(r'^eth::Bitlist::deserialize\(', o_des)], unroll=16)]
    for k in ('bytes', 'bv', 'bl'): js += [job(k + '_node', ov=NODE), job(k + '_read', ov=NODE)]
    spec.run_all(ck, js)
    ck.assumptions += ['hextoint is replaced by its contract in the readers (a value below 16, the value of the digit for hexadecimal characters); the contract is proved for all 256 characters.',
                       'Byte arrays of 1, 3, 4, 8, 20, 32, 48 and 96 bytes and bit vectors of 1, 4, 7, 8, 9, 16, 21 and 33 bits stand for the templates (every size the repository uses is among them); texts have any length below 2^56.',
                       'Bitlist::serialize and Bitlist::deserialize by contract (C17); yaml-cpp: a scalar node holds the string it was made from, reading fails exactly when the node is no scalar.',
                       'Text of odd length: for byte arrays only memory safety is claimed.']
