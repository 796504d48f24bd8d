"""C26: accessors and operations act on exactly the value they name."""
import re, z3
from . import spec
from .vals import *
from .mem import *
from .ir import Unsupported
from .models import *
from .props import prove


def h_object(ex, st, nm, size):
    n = cstr(ex, st, nm); o = Cells(size, BytesOf(n), n, 'heap'); oid = ex.new(st, o, n); st.ghost['obj.' + n] = oid
    return Ptr(oid, 0)


def src_of(st, p):
    """name and offset of a place of the value object"""
    for k, o in st.ghost.items():
        if k.startswith('obj.') and o == p.o: return k[4:], p.off.c
    raise Unsupported('value in an unknown object')


def h_same(ex, st, pp, n):
    d, s = ex.load(st, pp, 8), ex.load(st, pp.at(8), 8); nm, off = src_of(st, s)
    for i in range(n):
        g = ex.load(st, d.at(i), 1)
        ex.prove(st, norm2(bv(g, 8) == BytesOf(nm).get(off + i)), 'accessor/ensures-value-of-its-own-field', 'byte %d' % i)


def h_before(ex, st, p): pass


def h_frame(ex, st, x, n):
    o = ex.obj(st, x, 'object'); nm, _ = src_of(st, x)
    bad = [i for i, (m, v) in sorted(o.c.items()) for j in range(m) if not (is_sym(o.byte(i + j)) and z3.eq(norm(o.byte(i + j)), BytesOf(nm).get(i + j)))]
    ex.prove(st, not bad, 'accessor/assigns-nothing', str(bad[:5]))


def h_elements(ex, st, v):
    n = inp(ex, 'n', 64); st.assume(z3.ULT(n, 1 << 48)); f = uf(ex, 'element', (64, 64), 8)
    oid = new_vec(ex, st, v, 16, n, CFn(lambda i: norm(f(bv(i, 64), z3.BitVecVal(0, 64)))), 'elements')
    st.ghost['elements.begin'] = Ptr(oid, 0)


def h_uns(ex, st): raise Unsupported('accessor that returns a copy')


HOOKS = {'object': h_object, 'same': h_same, 'before': h_before, 'frame': h_frame, 'unsupported': h_uns, 'elements': h_elements}


@prove('C26')
def p26(ck):
    for pr in ('minimal', 'mainnet'):
        m = spec.compile_unit(ck, 's_acc', pr)
        spec.run_all(ck, [('%s/%s' % (pr, e[5:]), lambda e=e: spec.run_spec(m, e[5:], e, opts={'hooks': HOOKS, 'unroll': 256})) for e in m.fns if e.startswith('spec_') and (pr == 'minimal' or 'get_' in e)])
    ck.assumptions += ['Byte arrays of 1, 3, 4, 8, 20, 32, 48 and 96 bytes (every size the repository uses is among them) and six pairs of lengths for concatenation stand for the templates; all contents.',
                       'Accessors of blocks, block bodies and the state are member functions; those that hand out a reference are proved to hand out the field itself, those that return a copy of an integer its value.']
