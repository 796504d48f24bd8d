"""Values and memory of the IR verifier."""
import z3
from math import gcd

M64 = (1 << 64) - 1


class Fork(Exception):
    """an instruction needs cond decided: run it once under cond and once under its negation"""
    def __init__(s, cond): s.cond = cond


class Lin:
    """c + sum coef*atom (mod 2^64), used for pointer offsets; coefficients kept signed"""
    __slots__ = ('c', 't')

    def __init__(s, c=0, t=None): s.c = c; s.t = t or {}

    def add(a, b, k=1):
        t = dict(a.t)
        for i, (e, q) in b.t.items():
            v = t[i][1] + k * q if i in t else k * q
            v = sg(v)
            if v: t[i] = (e, v)
            else: t.pop(i, None)
        return Lin(sg(a.c + k * b.c), t)

    def scale(a, k):
        if k == 0: return Lin(0)
        return Lin(sg(a.c * k), {i: (e, sg(q * k)) for i, (e, q) in a.t.items() if sg(q * k)})

    def const(a): return not a.t

    def content(a):
        g = abs(a.c)
        for e, q in a.t.values(): g = gcd(g, abs(q))
        return g

    def div(a, k):
        if a.c % k or any(q % k for e, q in a.t.values()): return None
        return Lin(a.c // k, {i: (e, q // k) for i, (e, q) in a.t.items()})

    def expr(a):
        if not a.t: return a.c & M64
        r = None
        for i in sorted(a.t):
            e, q = a.t[i]
            x = e if q == 1 else e * z3.BitVecVal(q, 64)
            r = x if r is None else r + x
        if a.c: r = r + z3.BitVecVal(a.c, 64)
        return r

    def __repr__(s): return ' + '.join(['%d' % s.c] + ['%d*%s' % (q, e) for e, q in s.t.values()])


def sg(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


_lc = {}


def lin(v):
    """64-bit integer value -> Lin"""
    if isinstance(v, Lin): return v
    if isinstance(v, int): return Lin(sg(v))
    i = v.get_id()
    r = _lc.get(i)
    if r is not None: return r[1]
    k = v.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = Lin(0)
        for c in v.children(): r = r.add(lin(c))
    elif k == z3.Z3_OP_BSUB and v.num_args() == 2: r = lin(v.arg(0)).add(lin(v.arg(1)), -1)
    elif k == z3.Z3_OP_BNEG: r = lin(v.arg(0)).scale(-1)
    elif k == z3.Z3_OP_BMUL and v.num_args() == 2 and z3.is_bv_value(v.arg(0)): r = lin(v.arg(1)).scale(sg(v.arg(0).as_long()))
    elif k == z3.Z3_OP_BMUL and v.num_args() == 2 and z3.is_bv_value(v.arg(1)): r = lin(v.arg(0)).scale(sg(v.arg(1).as_long()))
    elif k == z3.Z3_OP_BSHL and z3.is_bv_value(v.arg(1)) and v.arg(1).as_long() < 63: r = lin(v.arg(0)).scale(1 << v.arg(1).as_long())
    elif z3.is_bv_value(v): r = Lin(sg(v.as_long()))
    elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(v.arg(v.num_args() - 1)) and v.arg(v.num_args() - 1).as_long() == 0 and v.num_args() == 2 \
            and v.arg(0).decl().kind() == z3.Z3_OP_EXTRACT and v.arg(0).decl().params()[1] == 0 and v.arg(0).arg(0).size() == 64:
        # (x << c) as z3 writes it
        r = lin(v.arg(0).arg(0)).scale(1 << v.arg(1).size())
    else: r = Lin(0, {i: (v, 1)})
    _lc[i] = (v, r)
    return r


class Ptr:
    """pointer into object o (an object id, an Elem, a function name tuple, or None for null)"""
    __slots__ = ('o', 'off', 'ep')

    def __init__(s, o, off=0, ep=0):
        s.o = o; s.off = off if isinstance(off, Lin) else Lin(off); s.ep = ep

    def at(s, d): return Ptr(s.o, s.off.add(lin(d)), s.ep)

    def __repr__(s): return 'Ptr(%s,%s)' % (s.o, s.off)


NULL = Ptr(None, 0)


class FnP:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return 'fn ' + s.name


class Elem:
    """the idx-th member of a family of opaque objects"""
    __slots__ = ('fam', 'idx')
    def __init__(s, fam, idx): s.fam = fam; s.idx = idx
    def __repr__(s): return '%s[%s]' % (s.fam, s.idx)


class MaybeNull:
    """null when cond holds, otherwise p"""
    __slots__ = ('cond', 'p')
    def __init__(s, c, p): s.cond = c; s.p = p


class VPtr:
    """vtable pointer of an opaque object"""
    __slots__ = ('e', 'off')
    def __init__(s, e, off=0): s.e = e; s.off = off


class VFn:
    __slots__ = ('e', 'slot')
    def __init__(s, e, slot): s.e = e; s.slot = slot


class SV:
    """struct value: offset -> (size, value)"""
    __slots__ = ('c', 'gap')
    def __init__(s, c, gap=None): s.c = c; s.gap = gap


class Poison:
    def __repr__(s): return 'poison'


POISON = Poison()


def is_sym(v): return isinstance(v, z3.ExprRef)


def same(a, b):
    """syntactic equality of values"""
    if a is b: return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr): return sameobj(a.o, b.o) and same_lin(a.off, b.off) and a.ep == b.ep
    if isinstance(a, FnP) and isinstance(b, FnP): return a.name == b.name
    if isinstance(a, Elem) and isinstance(b, Elem): return sameobj(a, b)
    if is_sym(a) and is_sym(b): return a.eq(b)
    if isinstance(a, SV) and isinstance(b, SV):
        return a.c.keys() == b.c.keys() and all(a.c[k][0] == b.c[k][0] and same(a.c[k][1], b.c[k][1]) for k in a.c)
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def sameobj(a, b):
    if isinstance(a, Elem) and isinstance(b, Elem): return a.fam == b.fam and same(a.idx, b.idx)
    return a == b if not (isinstance(a, Elem) or isinstance(b, Elem)) else False


def same_lin(a, b):
    d = a.add(b, -1)
    return d.const() and d.c == 0


def bv(v, w):
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if isinstance(v, bool): return z3.BitVecVal(int(v), w)
    if isinstance(v, Lin): return bv(v.expr(), w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if v.size() != w: raise TypeError('width %d, wanted %d' % (v.size(), w))
    return v


def bl(v):
    """i1 value -> z3 Bool or python bool"""
    if isinstance(v, int): return bool(v & 1)
    if z3.is_bool(v): return v
    k = v.decl().kind()
    if k == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
        a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
        if a == b: return bool(a)
        return v.arg(0) if a else z3.simplify(z3.Not(v.arg(0)))
    return z3.simplify(z3.Extract(0, 0, v) == 1)


def norm(e):
    """z3 expression -> python int when constant"""
    if isinstance(e, (int, bool)): return int(e)
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e


def subst(v, pairs):
    """replace symbols in a value"""
    if isinstance(v, (int, FnP, Poison)) or v is None: return v
    if is_sym(v): return norm(z3.substitute(v, *pairs))
    if isinstance(v, Lin): return lin(norm(z3.substitute(bv(v.expr(), 64), *pairs))) if v.t else v
    if isinstance(v, Elem): return Elem(v.fam, subst(v.idx, pairs))
    if isinstance(v, Ptr): return Ptr(subst(v.o, pairs) if isinstance(v.o, Elem) else v.o, subst(v.off, pairs), v.ep)
    if isinstance(v, SV): return SV({k: (n, subst(x, pairs)) for k, (n, x) in v.c.items()}, v.gap)
    if isinstance(v, VPtr): return VPtr(subst(v.e, pairs), v.off)
    if isinstance(v, tuple): return tuple(subst(x, pairs) for x in v)
    raise TypeError('subst %r' % (v,))


def syms(v, acc=None):
    """uninterpreted constants of a value: name -> expr"""
    if acc is None: acc = {}
    if is_sym(v): _syms(v, acc, set())
    elif isinstance(v, Lin):
        for e, q in v.t.values(): _syms(e, acc, set())
    elif isinstance(v, Elem): syms(v.idx, acc)
    elif isinstance(v, Ptr):
        if isinstance(v.o, Elem): syms(v.o, acc)
        syms(v.off, acc)
    elif isinstance(v, SV):
        for n, x in v.c.values(): syms(x, acc)
    elif isinstance(v, VPtr): syms(v.e, acc)
    elif isinstance(v, tuple):
        for x in v: syms(x, acc)
    return acc


def _syms(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()] = x
        else:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()] = x
            st += x.children()


def vif(c, a, b):
    """value-level if"""
    c = norm(c) if is_sym(c) else c
    if isinstance(c, (int, bool)): return a if c else b
    if same(a, b): return a
    if isinstance(a, SV) and isinstance(b, SV):
        if a.c.keys() != b.c.keys(): raise Fork(c)
        return SV({k: (a.c[k][0], vif(c, a.c[k][1], b.c[k][1]) if not isinstance(a.c[k][1], Ptr) or same(a.c[k][1], b.c[k][1]) else _raise(c)) for k in a.c}, a.gap)
    if is_sym(a) or is_sym(b) or (isinstance(a, int) and isinstance(b, int)):
        if isinstance(a, (Ptr, FnP, SV)) or isinstance(b, (Ptr, FnP, SV)): raise Fork(c)
        if is_sym(a): s = a.sort()
        elif is_sym(b): s = b.sort()
        else: return ('need-width', c, a, b)
        return norm(z3.If(c, lift(a, s), lift(b, s)))
    raise Fork(c)


def _raise(c): raise Fork(c)


def lift(v, s):
    if is_sym(v): return v
    if s == z3.BoolSort(): return z3.BoolVal(bool(v))
    return z3.BitVecVal(v, s.size())


def vifw(c, a, b, w):
    """value-level if for w-bit scalars (w=0: Bool)"""
    r = vif(c, a, b)
    if isinstance(r, tuple) and len(r) == 4 and r[0] == 'need-width':
        if w == 0: return norm(z3.If(r[1], z3.BoolVal(bool(a)), z3.BoolVal(bool(b))))
        return norm(z3.If(r[1], z3.BitVecVal(a, w), z3.BitVecVal(b, w)))
    return r


# --- contents of sequences: immutable functions from an index to an element value ---------------------------------------------------
def d64(a, b):
    """a - b as int when syntactically constant, else None"""
    d = lin(a).add(lin(b), -1)
    return d.c if d.const() else None


def ult(a, b):
    """unsigned a < b on 64-bit values: bool or z3"""
    if isinstance(a, int) and isinstance(b, int): return a < b
    return norm(z3.ULT(bv(a, 64), bv(b, 64)))


def ule(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return norm(z3.ULE(bv(a, 64), bv(b, 64)))


def sub64(a, b):
    return norm(bv(lin(a).add(lin(b), -1).expr(), 64))


def add64(a, b):
    return norm(bv(lin(a).add(lin(b)).expr(), 64))


class CFn:
    def __init__(s, f): s.f = f
    def get(s, i): return s.f(i)


class CList:
    def __init__(s, l, w): s.l = l; s.w = w

    def get(s, i):
        if isinstance(i, int):
            if i < len(s.l): return s.l[i]
            return z3.FreshConst(z3.BitVecSort(s.w), 'oob') if s.w else z3.FreshConst(z3.BoolSort(), 'oob')
        if not s.l: return z3.FreshConst(z3.BitVecSort(s.w), 'oob') if s.w else z3.FreshConst(z3.BoolSort(), 'oob')
        r = s.l[-1]
        for j in range(len(s.l) - 2, -1, -1): r = vifw(z3.simplify(i == j), s.l[j], r, s.w)
        return r


class CSeg:
    """base with [start, start+n) replaced by f(i - start)"""
    def __init__(s, base, start, n, f, w): s.base = base; s.start = start; s.n = n; s.f = f; s.w = w

    def get(s, i):
        d = sub64(i, s.start)
        c = ult(d, s.n) if not (isinstance(s.n, int) and s.n == 1 and is_sym(d)) else z3.simplify(bv(i, 64) == bv(s.start, 64))
        if is_sym(c) and (z3.is_true(c) or z3.is_false(c)): c = z3.is_true(c)
        if isinstance(c, (int, bool)): return s.f(d) if c else s.base.get(i)
        return vifw(c, s.f(d), s.base.get(i), s.w)


WIDE = {}      # id of a narrow value -> (value, 64-bit expression it is the low part of)


def widen64(e):
    """a 64-bit expression whose low bits are e (linear in counters)"""
    w = e.size()
    h = WIDE.get(e.get_id())
    if h is not None: return h[1]
    k = e.decl().kind()
    if z3.is_bv_value(e):
        v = e.as_long(); return z3.BitVecVal(v - (1 << w) if v >> (w - 1) else v, 64)
    if k == z3.Z3_OP_BADD:
        r = Lin(0)
        for c in e.children(): r = r.add(lin(widen64(c)))
        return bv(r.expr(), 64)
    if k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
        v = e.arg(0).as_long(); v = v - (1 << w) if v >> (w - 1) else v
        return bv(lin(widen64(e.arg(1))).scale(v).expr(), 64)
    if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0 and e.arg(0).size() == 64: return e.arg(0)
    if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() == 0 and e.arg(0).decl().kind() == z3.Z3_OP_EXTRACT and e.arg(0).params()[1] == 0:
        # shift left of a narrow value
        x = e.arg(0)
        if x.arg(0).size() == 64: return bv(lin(x.arg(0)).scale(1 << e.arg(1).size()).expr(), 64)
    return z3.SignExt(64 - w, e)


BOUND = {}     # id of a 64-bit constant -> (constant, exclusive upper bound assumed for it)


def split_bound(l, c):
    """l = c*p + r with r below c syntactically (one bounded constant plus a small number): (p, r)"""
    rest = [(i, e, q) for i, (e, q) in l.t.items() if q % c]
    if len(rest) != 1: return None
    i, e, q = rest[0]
    b = BOUND.get(i)
    cc = l.c % c
    if b is None or q != 1 or b[1] + cc > c: return None
    t = dict(l.t); del t[i]
    d = Lin(l.c - cc, t).div(c)
    return norm(bv(d.expr(), 64)), norm(bv(Lin(cc, {i: (e, 1)}).expr(), 64))


class CApp:
    """base below n0; above it element n0 + c*p + r is E[r] with k replaced by p"""
    def __init__(s, base, n0, E, k, w): s.base = base; s.n0 = n0; s.E = E; s.k = k; s.w = w; s.memo = {}

    def val(s, q):
        c = len(s.E)
        if c == 1: return s.one(0, q)
        l = lin(q)
        if isinstance(q, int): return s.one(q % c, q // c)
        # index of the form c*x + r
        d = Lin(l.c - l.c % c, l.t).div(c)
        if d is not None: return s.one(l.c % c, norm(bv(d.expr(), 64)))
        x = split_bound(l, c)
        if x is not None:
            p, r = x
            v = s.one(c - 1, p)
            for j in range(c - 2, -1, -1): v = vifw(z3.simplify(bv(r, 64) == j), s.one(j, p), v, s.w)
            return v
        p = norm(z3.UDiv(bv(q, 64), z3.BitVecVal(c, 64))); r = norm(z3.URem(bv(q, 64), z3.BitVecVal(c, 64)))
        v = s.one(c - 1, p)
        for j in range(c - 2, -1, -1): v = vifw(z3.simplify(bv(r, 64) == j), s.one(j, p), v, s.w)
        return v

    def one(s, r, p): return subst(s.E[r], [(s.k, bv(p, 64))])

    def get(s, i):
        d = sub64(i, s.n0)
        c = ult(i, s.n0)
        if isinstance(c, (int, bool)): return s.base.get(i) if c else s.val(d)
        return vifw(c, s.base.get(i), s.val(d), s.w)
