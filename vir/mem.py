"""Memory objects of the IR verifier. Objects are immutable from the outside: a state clones an object before changing it."""
import z3
from .vals import *
from .ir import Unsupported

_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    n = '%s!%d' % (name, _fresh[0])
    return z3.Bool(n) if w == 0 else z3.BitVec(n, w)


class BytesOf:
    """lazily named symbolic bytes of an object: byte i is the constant name[i]"""
    def __init__(s, name): s.name = name
    def get(s, i): return z3.BitVec('%s[%d]' % (s.name, i), 8)


class Cells:
    """concretely indexed object; size in bytes; base is 'undef', 'zero' or BytesOf"""
    kind = 'cells'
    __slots__ = ('size', 'c', 'base', 'name', 'alive', 'const', 'how', 'idx')

    def __init__(s, size, base='undef', name='', how='stack'):
        s.size = size; s.c = {}; s.base = base; s.name = name; s.alive = True; s.const = False; s.how = how; s.idx = None

    def clone(s):
        r = Cells(s.size, s.base, s.name, s.how); r.c = dict(s.c); r.alive = s.alive; r.const = s.const
        return r

    def over(s, off, n):
        """offsets of cells overlapping [off, off+n)"""
        if len(s.c) <= n + 64: return [o for o, (m, v) in s.c.items() if o < off + n and off < o + m]
        return [o for o in range(off - 63, off + n) if o in s.c and o + s.c[o][0] > off]

    def byte(s, off, ex=None):
        """one byte as int / BV8"""
        for o in range(off, off - 64, -1):
            if o in s.c:
                m, v = s.c[o]
                if o + m > off: return byte_of(v, m, off - o)
        return s.base_byte(off)

    def base_byte(s, off):
        if s.base == 'zero': return 0
        if s.base == 'undef': return POISON
        return s.base.get(off)

    def read(s, off, n):
        h = s.c.get(off)
        if h is not None and h[0] == n: return h[1]
        ov = s.over(off, n)
        if not ov:
            if s.base == 'undef': return POISON
            if s.base == 'zero': return 0
        if h is not None and h[0] > n: return extract(h[1], h[0], 0, n)
        for o in ov:
            if o <= off and o + s.c[o][0] >= off + n: return extract(s.c[o][1], s.c[o][0], off - o, n)
        return from_bytes([s.byte(off + i) for i in range(n)])

    def write(s, off, n, v):
        for o in s.over(off, n):
            m, w = s.c[o]
            if o >= off and o + m <= off + n: del s.c[o]; continue
            del s.c[o]
            if o < off: put(s, o, off - o, part(w, m, 0, off - o))
            if o + m > off + n: put(s, off + n, o + m - off - n, part(w, m, off + n - o, o + m - off - n))
        s.c[off] = (n, v)

    def erase(s, off, n):
        for o in s.over(off, n):
            m, w = s.c[o]
            del s.c[o]
            if o < off: put(s, o, off - o, part(w, m, 0, off - o))
            if o + m > off + n: put(s, off + n, o + m - off - n, part(w, m, off + n - o, o + m - off - n))

    def get_range(s, off, n):
        """cells of [off, off+n) relative to off, plus the gaps filled from the base"""
        out = {}
        for o in sorted(s.over(off, n)):
            m, v = s.c[o]
            a = max(o, off); b = min(o + m, off + n)
            out[a - off] = (b - a, v if (a, b) == (o, o + m) else part(v, m, a - o, b - a))
        if s.base != 'undef':
            pos = 0
            for o in sorted(out) + [n]:
                while pos < o:
                    if s.base == 'zero': out[pos] = (o - pos, 0); pos = o
                    else: out[pos] = (1, s.base.get(off + pos)); pos += 1
                if o < n: pos = o + out[o][0]
        return out


def put(s, off, n, v): s.c[off] = (n, v)


def part(v, m, o, n):
    return extract(v, m, o, n)


def byte_of(v, m, i): return extract(v, m, i, 1)


def extract(v, m, o, n):
    """bytes [o, o+n) of the m-byte value v"""
    if o == 0 and n == m: return v
    if isinstance(v, int): return (v >> (8 * o)) & ((1 << (8 * n)) - 1)
    if v is POISON: return POISON
    if isinstance(v, Ptr) and v.o is None and v.off.const(): return (v.off.c >> (8 * o)) & ((1 << (8 * n)) - 1)
    if is_sym(v):
        if z3.is_bool(v): v = bv(v, 8 * m)
        if v.size() != 8 * m: raise Unsupported('width of a stored value')
        return norm(z3.Extract(8 * (o + n) - 1, 8 * o, v))
    raise Unsupported('part of a %s' % type(v).__name__)


def from_bytes(bs):
    if all(isinstance(b, int) for b in bs): return sum(b << (8 * i) for i, b in enumerate(bs))
    if any(b is POISON for b in bs):
        if all(b is POISON for b in bs): return POISON
        bs = [fresh('undef', 8) if b is POISON else b for b in bs]
    # consecutive extracts of one value
    return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if len(bs) > 1 else bs[0]


class Seq:
    """symbolically indexed object: n elements of gs bytes; element i is content.get(i)"""
    kind = 'seq'
    __slots__ = ('gs', 'n', 'content', 'name', 'alive', 'const', 'how', 'ep', 'fixed')

    def __init__(s, gs, n, content, name='', how='heap'):
        s.gs = gs; s.n = n; s.content = content; s.name = name; s.alive = True; s.const = False; s.how = how; s.ep = 0; s.fixed = False

    def clone(s):
        r = Seq(s.gs, s.n, s.content, s.name, s.how); r.alive = s.alive; r.const = s.const; r.ep = s.ep; r.fixed = s.fixed
        return r

    @property
    def size(s):
        return s.n * s.gs if isinstance(s.n, int) else norm(bv(lin(s.n).scale(s.gs).expr(), 64))

    def split(s, off):
        """offset (Lin) -> (element index, offset in the element) or None"""
        r = off.c % s.gs
        d = Lin(off.c - r, off.t).div(s.gs)
        if d is not None: return norm(bv(d.expr(), 64)), r
        return split_bound(off, s.gs) if s.gs > 1 else None


def ueq(a, b, w):
    """equality of two element/cell values as bool or z3 Bool; None when not comparable"""
    if same(a, b): return True
    if a is POISON or b is POISON: return None
    if isinstance(a, SV) or isinstance(b, SV):
        if not (isinstance(a, SV) and isinstance(b, SV)) : return None
        if a.c.keys() != b.c.keys(): return None
        cs = []
        for k in a.c:
            if a.c[k][0] != b.c[k][0]: return None
            e = ueq(a.c[k][1], b.c[k][1], 8 * a.c[k][0])
            if e is None: return None
            if e is False: return False
            if e is not True: cs.append(e)
        return z3.And(*cs) if cs else True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if isinstance(a.o, Elem) and isinstance(b.o, Elem) and a.o.fam == b.o.fam:
            return norm2(z3.And(bv(a.o.idx, 64) == bv(b.o.idx, 64), bv(a.off.expr(), 64) == bv(b.off.expr(), 64)))
        if not sameobj(a.o, b.o): return False
        return norm2(bv(a.off.expr(), 64) == bv(b.off.expr(), 64))
    if isinstance(a, (Ptr, FnP, VPtr, VFn)) or isinstance(b, (Ptr, FnP, VPtr, VFn)): return None
    if isinstance(a, tuple) or isinstance(b, tuple): return None
    if isinstance(a, int) and isinstance(b, int): return a == b
    if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        fa, fb = bl(a), bl(b)
        fa = z3.BoolVal(fa) if isinstance(fa, bool) else fa; fb = z3.BoolVal(fb) if isinstance(fb, bool) else fb
        return norm2(fa == fb)
    w = a.size() if is_sym(a) else b.size()
    if is_sym(a) and is_sym(b) and a.size() != b.size(): return None
    return norm2(bv(a, w) == bv(b, w))


def norm2(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
