"""Contracts of the C++ standard library and runtime functions the code under contract calls, and the specification intrinsics.
Each model states the standard's contract on the real memory layout: a std::vector is its three pointer cells and one buffer object."""
import re
import z3
from .vals import *
from .mem import *
from .ir import Unsupported
from .ex import THROWN, Thrown, PathEnd

M = []          # (regex on the demangled name, handler)
MODELS = M


def model(rx):
    def d(f):
        M.append((rx, f)); return f
    return d


def cstr(ex, st, p):
    r = b''
    o = ex.obj(st, p, 'string')
    i = p.off.c
    while True:
        b = o.read(i, 1)
        if not isinstance(b, int): raise Unsupported('symbolic C string')
        if b == 0: return r.decode(errors='replace')
        r += bytes([b]); i += 1


def throw(st, ti):
    st.exc = ti
    return THROWN


def inp(ex, name, w):
    v = ex.inputs.get((name, w))
    if v is None:
        v = z3.Bool(name) if w == 0 else z3.BitVec(name, w); ex.inputs[(name, w)] = v
    return v


# --- intrinsics ----------------------------------------------------------------------------------------------------------------------
@model(r'^vir_assert$')
def _(ex, st, a, c):
    n = cstr(ex, st, a[1]); v = bl(ex.needed(a[0]))
    ex.covered.setdefault(n, 0)
    if not ex.rec: return
    r = ex.prove(st, v, n)
    if n not in ex.covered or not ex.covered[n]:
        if ex.check(st, z3.BoolVal(True)) != 'unsat': ex.covered[n] = 1


@model(r'^vir_assume$')
def _(ex, st, a, c): st.assume(bl(ex.needed(a[0])))


@model(r'^vir_cover$')
def _(ex, st, a, c):
    if ex.check(st, z3.BoolVal(True)) != 'unsat': ex.covered[cstr(ex, st, a[0])] = 1


@model(r'^vir_u64$')
def _(ex, st, a, c): return inp(ex, cstr(ex, st, a[0]), 64)
@model(r'^vir_u32$')
def _(ex, st, a, c): return inp(ex, cstr(ex, st, a[0]), 32)
@model(r'^vir_u8$')
def _(ex, st, a, c): return inp(ex, cstr(ex, st, a[0]), 8)
@model(r'^vir_bool$')
def _(ex, st, a, c): return inp(ex, cstr(ex, st, a[0]), 0)


@model(r'^vir_havoc$')
def _(ex, st, a, c):
    n = cstr(ex, st, a[2])
    for i in range(a[1]): ex.store(st, a[0].at(i), 1, inp(ex, '%s[%d]' % (n, i), 8))


@model(r'^vir_lt$')
def _(ex, st, a, c):
    v = inp(ex, cstr(ex, st, a[1]), 64)
    if a[0] == 0: raise PathEnd()
    st.assume(z3.ULT(v, a[0])); BOUND[v.get_id()] = (v, a[0])
    return v


def uf(ex, name, sig, out):
    k = (name, sig, out)
    if k not in ex.uf:
        so = [z3.BitVecSort(w) if w else z3.BoolSort() for w in sig]
        ex.uf[k] = z3.Function(name, *so, z3.BitVecSort(out) if out else z3.BoolSort())
    return ex.uf[k]


@model(r'^vir_f64$')
def _(ex, st, a, c): return norm(uf(ex, cstr(ex, st, a[0]), (64, 64), 64)(bv(a[1], 64), bv(a[2], 64)))
@model(r'^vir_f8$')
def _(ex, st, a, c): return norm(uf(ex, cstr(ex, st, a[0]), (64, 64), 8)(bv(a[1], 64), bv(a[2], 64)))
@model(r'^vir_fb$')
def _(ex, st, a, c): return norm(uf(ex, cstr(ex, st, a[0]), (64, 64), 0)(bv(a[1], 64), bv(a[2], 64)))


@model(r'^vir_bytes$')
def _(ex, st, a, c):
    n = cstr(ex, st, a[1])
    mk_bytes(ex, st, a[0], n)


def mk_bytes(ex, st, p, n):
    ln = inp(ex, n + '.size', 64)
    st.assume(z3.ULT(ln, 1 << 56))
    f = uf(ex, n, (64,), 8)
    oid = new_vec(ex, st, p, 1, ln, CFn(lambda i: norm(f(bv(i, 64)))), n)
    return oid, ln, f


@model(r'^vir_string$')
def _(ex, st, a, c):
    n = cstr(ex, st, a[1]); ln = inp(ex, n + '.size', 64)
    st.assume(z3.ULT(ln, 1 << 56))
    f = uf(ex, n, (64,), 8)
    new_str(ex, st, a[0], ln, CFn(lambda i: norm(f(bv(i, 64)))), n)


@model(r'^vir_ghost$')
def _(ex, st, a, c):
    n = cstr(ex, st, a[0])
    if n not in st.ghost: raise Unsupported('ghost %s not set' % n)
    return st.ghost[n]


@model(r'^vir_hook')
def _(ex, st, a, c):
    n = cstr(ex, st, a[0]); h = ex.o['hooks'][n]
    return h(ex, st, *a[1:])


# --- runtime -------------------------------------------------------------------------------------------------------------------------
@model(r'^operator new(\[\])?\(unsigned long')
def _(ex, st, a, c):
    n = a[0]
    if isinstance(n, int): return Ptr(ex.new(st, Cells(n, 'undef', 'heap', 'heap'), 'heap'), 0)
    return Ptr(ex.new(st, Seq(1, n, CFn(lambda i: fresh('undef', 8)), 'heap'), 'heap'), 0)


@model(r'^operator delete(\[\])?\(void\*')
def _(ex, st, a, c):
    p = a[0]
    if isinstance(p, Ptr) and p.o is not None and p.o in st.mem: st.w(p.o).alive = False


@model(r'^__cxa_allocate_exception$')
def _(ex, st, a, c): return Ptr(ex.new(st, Cells(a[0], 'undef', 'exception', 'heap'), 'exc'), 0)
@model(r'^__cxa_free_exception$|^__cxa_end_catch$|^__cxa_atexit$')
def _(ex, st, a, c): return 0
@model(r'^__cxa_begin_catch$')
def _(ex, st, a, c): st.exc = None; return a[0]
@model(r'^__cxa_throw$')
def _(ex, st, a, c): return throw(st, a[1].o[1:] if isinstance(a[1], Ptr) else 'unknown')
@model(r'^__cxa_rethrow$')
def _(ex, st, a, c): return throw(st, 'rethrown')
@model(r'^__clang_call_terminate$|^std::terminate|^abort$|^__assert_fail$|^std::__glibcxx_assert_fail')
def _(ex, st, a, c):
    ex.prove(st, False, 'control/termination', 'the program would be terminated'); raise PathEnd()
@model(r'^__cxa_guard_acquire$')
def _(ex, st, a, c):
    v = ex.load(st, a[0], 1)
    return 1 if v == 0 or v is POISON else 0
@model(r'^__cxa_guard_release$|^__cxa_guard_abort$')
def _(ex, st, a, c): ex.store(st, a[0], 1, 1)
@model(r'^std::(invalid_argument|out_of_range|length_error|logic_error|runtime_error|domain_error|overflow_error|range_error)::(~)?\1\(|^std::exception::')
def _(ex, st, a, c): return None
THROWS = {'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range', 'length_error': '_ZTISt12length_error', 'bad_alloc': '_ZTISt9bad_alloc',
          'bad_array_new_length': '_ZTISt9bad_alloc', 'logic_error': '_ZTISt11logic_error', 'invalid_argument': '_ZTISt16invalid_argument', 'bad_function_call': '_ZTISt17bad_function_call'}
@model(r'^std::__throw_(\w+)\(')
def _(ex, st, a, c):
    n = re.match(r'^std::__throw_(\w+)\(', c.dem).group(1)
    return throw(st, THROWS.get(n, 'unknown'))


@model(r'^(memcpy|memmove)$')
def _(ex, st, a, c): ex.copy(st, a[0], a[1], a[2]); return a[0]


@model(r'^(memcmp|bcmp)$|^std::__memcmp')
def _(ex, st, a, c):
    n = a[2]
    if not isinstance(n, int): raise Unsupported('memcmp of symbolic length')
    if n == 0: return 0
    x = [ex.load(st, a[0].at(i), 1) for i in range(n)]; y = [ex.load(st, a[1].at(i), 1) for i in range(n)]
    r = 0
    for p, q in reversed(list(zip(x, y))):
        r = vifw(norm2(bv(p, 8) == bv(q, 8)), r, vifw(ult8(p, q), 0xffffffff, 1, 32), 32)
    return r


def ult8(a, b): return norm2(z3.ULT(bv(a, 8), bv(b, 8)))


@model(r'^(memset)$')
def _(ex, st, a, c):
    if isinstance(a[2], int):
        ex.llvm(st, st.fr[-1], 'llvm.memset', [(('ptr',), ('c', a[0])), (('i', 8), ('c', a[1] & 255 if isinstance(a[1], int) else norm(z3.Extract(7, 0, a[1])))), (('i', 64), ('c', a[2]))], None)
        return a[0]
    b = a[1] & 255 if isinstance(a[1], int) else norm(z3.Extract(7, 0, a[1]))
    fill(ex, st, a[0], a[2], 1, b)
    return a[0]


def fill(ex, st, p, n, gs, v):
    """n elements of gs bytes set to v"""
    if isinstance(n, int):
        for i in range(n): ex.store(st, p.at(i * gs), gs, v)
        return
    o = ex.obj(st, p, 'fill')
    ex.range_inside(st, o, p, norm(bv(lin(n).scale(gs).expr(), 64)), 'fill')
    if o.kind != 'seq' or o.gs != gs: raise Unsupported('fill of %s' % o.name)
    i, r = o.split(p.off)
    ex.seq_set(st.w(p.o), i, n, lambda d: v)


# --- std::vector ---------------------------------------------------------------------------------------------------------------------
def vec_arg(dem, pre='std::vector<'):
    """first template argument of the (first) std::vector< in dem"""
    i = dem.index(pre) + len(pre); d = 0; j = i
    while True:
        ch = dem[j]
        if ch in '<(': d += 1
        elif ch in '>)': 
            if d == 0: break
            d -= 1
        elif ch == ',' and d == 0: break
        j += 1
    return dem[i:j].strip()


def elem_size(ex, t):
    r = ex.o.setdefault('_es', {}).get(t)
    if r: return r
    r = elem_size_(ex, t)
    ex.o['_es'][t] = r
    return r


BASIC = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8}


def elem_size_(ex, t):
    if t in BASIC: return BASIC[t]
    if t.endswith('*'): return 8
    m = re.fullmatch(r'std::array<unsigned char, (\d+)ul>', t)
    if m: return int(m.group(1))
    if re.fullmatch(r'std::pair<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, [\w: ]*\*>', t): return 40
    v = 'std::vector<%s, std::allocator<%s%s> >' % (t, t, ' ' if t.endswith('>') else '')
    for suf in ('::size() const', '::max_size() const'):
        for n in ex.mod.dem.get(v + suf, []):
            f = ex.mod.fns[n]
            if f.linkage != 'def': continue
            f.parse()
            for b in f.blocks.values():
                for ins, tx in b:
                    if ins[0] == 'bin' and ins[2] == 'sdiv' and ins[5][0] == 'c': return ins[5][1]
    for suf in ('::operator[](unsigned long)', '::operator[](unsigned long) const'):
        for n in ex.mod.dem.get(v + suf, []):
            f = ex.mod.fns[n]
            if f.linkage != 'def': continue
            f.parse()
            for b in f.blocks.values():
                for ins, tx in b:
                    if ins[0] == 'gep' and len(ins[4]) == 1 and ins[4][0][1][0] == 'r': return ex.mod.lay(ins[2])[0]
    for k in ('class.', 'struct.'):
        if k + t in ex.mod.types: return ex.mod.lay(('nm', k + t))[0]
    raise Unsupported('element size of ' + t)


def new_vec(ex, st, p, gs, n, content, name='vec'):
    oid = ex.new(st, Seq(gs, n, content, name), name)
    end = Lin(0).add(lin(n).scale(gs))
    put_vec(ex, st, p, oid, 0, end)
    return oid


def put_vec(ex, st, p, oid, ep, end):
    ex.store(st, p, 8, Ptr(oid, 0, ep)); ex.store(st, p.at(8), 8, Ptr(oid, end, ep)); ex.store(st, p.at(16), 8, Ptr(oid, end, ep))


def get_vec(ex, st, p):
    """(buffer id, buffer) of a vector"""
    b = ex.load(st, p, 8)
    if isinstance(b, int): b = Ptr(None, b)
    if not isinstance(b, Ptr): raise Unsupported('vector without a buffer')
    if b.o is None: raise Unsupported('vector with a null buffer')
    o = ex.obj(st, b, 'vector buffer')
    return b.o, o


def vsize(ex, st, p, gs):
    b = ex.load(st, p, 8); e = ex.load(st, p.at(8), 8)
    d = e.off.add(b.off, -1).div(gs)
    if d is None: raise Unsupported('vector size')
    return norm(bv(d.expr(), 64))


def is_cls(rx): return r'^(?:[\w:<>, *&\[\]()]*? )?std::vector<(?!bool)' + rx


NB = r'(?!bool, )'
VEC = r'^std::vector<' + NB + r'.*>::'


@model(VEC + r'vector\((std::allocator<.*> const&)?\)$')
def _(ex, st, a, c): new_vec(ex, st, a[0], elem_size(ex, vec_arg(c.dem)), 0, CList([], 8 * elem_size(ex, vec_arg(c.dem))), 'vec')


@model(VEC + r'vector\(unsigned long, .* const&, std::allocator<.*> const&\)$')
def _(ex, st, a, c):
    gs = elem_size(ex, vec_arg(c.dem)); v = get_elem(ex, st, a[2], gs)
    new_vec(ex, st, a[0], gs, a[1], CFn(lambda i: v), 'vec')


@model(VEC + r'vector\(unsigned long, std::allocator<.*> const&\)$')
def _(ex, st, a, c):
    t = vec_arg(c.dem); gs = elem_size(ex, t)
    if t not in BASIC and not t.startswith('std::array<') and not t.endswith('*'): raise Unsupported('default elements of ' + t)
    new_vec(ex, st, a[0], gs, a[1], CFn(lambda i: 0), 'vec')


@model(VEC + r'vector\(std::initializer_list<.*>, std::allocator<.*> const&\)$')
def _(ex, st, a, c):
    gs = elem_size(ex, vec_arg(c.dem)); n = a[2]
    if not isinstance(n, int): raise Unsupported('initializer list')
    new_vec(ex, st, a[0], gs, n, CList([get_elem(ex, st, a[1].at(i * gs), gs) for i in range(n)], 8 * gs), 'vec')


@model(VEC + r'vector\(std::vector<.*> const&\)$')
def _(ex, st, a, c):
    t = vec_arg(c.dem); gs = elem_size(ex, t); copyable(ex, t)
    oid, o = get_vec(ex, st, a[1])
    new_vec(ex, st, a[0], gs, vsize(ex, st, a[1], gs), o.content, o.name)


@model(VEC + r'vector\(std::vector<.*>&&\)$')
def _(ex, st, a, c):
    gs = elem_size(ex, vec_arg(c.dem))
    for k in (0, 8, 16): ex.store(st, a[0].at(k), 8, ex.load(st, a[1].at(k), 8))
    new_vec(ex, st, a[1], gs, 0, CList([], 8 * gs), 'moved')


@model(VEC + r'operator=\(std::vector<.*> const&\)$')
def _(ex, st, a, c):
    if same(a[0], a[1]): return a[0]
    t = vec_arg(c.dem); gs = elem_size(ex, t); copyable(ex, t)
    oid, o = get_vec(ex, st, a[1]); n = vsize(ex, st, a[1], gs); ct = o.content
    d, _ = get_vec(ex, st, a[0]); w = st.w(d)
    w.content = ct; w.n = n; w.ep += 1
    put_vec(ex, st, a[0], d, w.ep, Lin(0).add(lin(n).scale(gs)))
    return a[0]


@model(VEC + r'operator=\(std::vector<.*>&&\)$|' + VEC + r'swap\(')
def _(ex, st, a, c):
    x = [ex.load(st, a[0].at(k), 8) for k in (0, 8, 16)]; y = [ex.load(st, a[1].at(k), 8) for k in (0, 8, 16)]
    for i, k in enumerate((0, 8, 16)): ex.store(st, a[0].at(k), 8, y[i]); ex.store(st, a[1].at(k), 8, x[i])
    if 'operator=' in c.dem: vclear(ex, st, a[1])
    return a[0]


@model(VEC + r'~vector\(\)$')
def _(ex, st, a, c):
    b = ex.load(st, a[0], 8)
    if isinstance(b, Ptr) and b.o in st.mem: st.w(b.o).alive = False


def copyable(ex, t):
    """types whose copy is a copy of the representation"""
    if t in BASIC or t.endswith('*') or t.startswith('std::array<unsigned char') or t.startswith('eth::Bytes<') or t in ex.o.get('copyable', ('eth::Slot', 'eth::Boolean', 'EL')): return
    raise Unsupported('copy of a vector of ' + t)


def get_elem(ex, st, p, gs):
    if gs <= 8 or gs == 32:
        v = ex.load(st, p, gs)
        return v
    return mk_elem_(ex.read_range(st, p, gs), gs)


def mk_elem_(cells, gs):
    from .ex import mk_elem
    return mk_elem(cells, gs)


def vclear(ex, st, p):
    oid, o = get_vec(ex, st, p); w = st.w(oid)
    w.n = 0; w.content = CList([], 8 * w.gs); w.ep += 1
    put_vec(ex, st, p, oid, w.ep, Lin(0))


@model(VEC + r'clear\(\)$')
def _(ex, st, a, c): vclear(ex, st, a[0])


@model(VEC + r'(reserve|shrink_to_fit)\(')
def _(ex, st, a, c):
    get_vec(ex, st, a[0])


def vpush(ex, st, p, v, t=None):
    oid, o = get_vec(ex, st, p); w = st.w(oid)
    n = w.n
    w.content = CSeg(w.content, n, 1, lambda d, v=v: v, 8 * w.gs)
    w.n = add64(n, 1); w.ep += 1
    put_vec(ex, st, p, oid, w.ep, Lin(0).add(lin(w.n).scale(w.gs)))
    return oid, n


@model(VEC + r'push_back\(')
def _(ex, st, a, c):
    t = vec_arg(c.dem); copyable(ex, t)
    vpush(ex, st, a[0], get_elem(ex, st, a[1], elem_size(ex, t)))


@model(r'^(.*& )?std::vector<' + NB + r'.*>::emplace_back<(.*)>\(')
def _(ex, st, a, c):
    t = vec_arg(c.dem); gs = elem_size(ex, t)
    if len(a) == 2 and (re.search(r'emplace_back<%s( const)?( ?&)?>\(' % re.escape(t), c.dem)):
        copyable(ex, t)
        oid, n = vpush(ex, st, a[0], get_elem(ex, st, a[1], gs))
        return Ptr(oid, Lin(0).add(lin(n).scale(gs)), st.mem[oid].ep)
    raise Unsupported('emplace_back ' + c.dem[:200])


@model(VEC + r'pop_back\(\)$')
def _(ex, st, a, c):
    oid, o = get_vec(ex, st, a[0])
    ex.prove(st, norm2(bv(o.n, 64) != 0), 'library/pop_back-nonempty')
    w = st.w(oid); w.n = sub64(w.n, 1)
    e = ex.load(st, a[0], 8)
    ex.store(st, a[0].at(8), 8, Ptr(oid, Lin(0).add(lin(w.n).scale(w.gs)), w.ep))


@model(VEC + r'resize\(unsigned long(, .* const&)?\)$')
def _(ex, st, a, c):
    t = vec_arg(c.dem); gs = elem_size(ex, t)
    oid, o = get_vec(ex, st, a[0]); old = o.n; n = a[1]
    v = get_elem(ex, st, a[2], gs) if len(a) > 2 else 0
    if len(a) == 2 and t not in BASIC and not t.startswith('std::array<unsigned char') and not t.endswith('*'):
        if ex.decide(st, ule(n, old)) is not True: raise Unsupported('resize of a vector of ' + t)
    w = st.w(oid); base = w.content
    w.content = CSeg(base, old, norm(z3.If(ule_(old, n), bv(sub64(n, old), 64), z3.BitVecVal(0, 64))), lambda d: v, 8 * gs)
    w.n = n; w.ep += 1
    put_vec(ex, st, a[0], oid, w.ep, Lin(0).add(lin(n).scale(gs)))


def ule_(a, b):
    r = ule(a, b)
    return z3.BoolVal(bool(r)) if isinstance(r, (bool, int)) else r


@model(VEC + r'assign\(unsigned long, ')
def _(ex, st, a, c):
    t = vec_arg(c.dem); gs = elem_size(ex, t); v = get_elem(ex, st, a[2], gs)
    oid, o = get_vec(ex, st, a[0]); w = st.w(oid)
    w.n = a[1]; w.content = CFn(lambda i: v); w.ep += 1
    put_vec(ex, st, a[0], oid, w.ep, Lin(0).add(lin(w.n).scale(gs)))


def itp(ex, v):
    """iterator argument: a pointer, or a one-member struct"""
    while isinstance(v, tuple) and len(v) == 1: v = v[0]
    return v


class Shift:
    """the elements of a content from q on"""
    def __init__(s, c, q): s.c = c; s.q = q; s.seq = (c, q)
    def __call__(s, x): return s.c.get(add64(s.q, x))


def vinsert(ex, st, p, pos, first, last, gs):
    """range insert; returns the iterator to the first inserted element"""
    oid, o = get_vec(ex, st, p)
    if not (isinstance(pos, Ptr) and pos.o == oid): raise Unsupported('insert position')
    if pos.ep != o.ep and not o.fixed: raise Unsupported('insert at an iterator taken before the vector grew')
    q, r = o.split(pos.off)
    if r: raise Unsupported('insert position')
    if first.o != last.o: raise Unsupported('insert from two objects')
    d = last.off.add(first.off, -1).div(gs)
    if d is None: raise Unsupported('insert of partial elements')
    m = norm(bv(d.expr(), 64))
    if first.o is None or (isinstance(m, int) and m == 0):
        return Ptr(oid, pos.off, o.ep)
    so = ex.obj(st, first, 'insert')
    nb = norm(bv(lin(m).scale(gs).expr(), 64))
    if isinstance(m, int) and so.kind == 'cells':
        if m > 1 << 16: raise Unsupported('long insert')
        els = [get_elem(ex, st, first.at(i * gs), gs) for i in range(m)]
        f = lambda x: CList(els, 8 * gs).get(x)
    else:
        ex.range_inside(st, so, first, nb, 'insert')
        # a range: the distance is not negative
        ex.prove(st, norm2(bv(m, 64) >= 0), 'library/valid-range')
        if so.kind == 'cells':
            if not first.off.const(): raise Unsupported('insert from a symbolic offset')
            k = (so.size - first.off.c) // gs
            els = [ex.load_quiet(so, first.off.c + i * gs, gs) for i in range(min(k, 64))]
            if k > 64: raise Unsupported('insert of symbolic length')
            f = lambda x: CList(els, 8 * gs).get(x)
        else:
            if so.gs != gs: raise Unsupported('insert between element sizes')
            sq, sr = so.split(first.off)
            if sr: raise Unsupported('insert of partial elements')
            ct = so.content
            f = Shift(ct, sq)
    w = st.w(oid); base = w.content; n = w.n
    tail = sub64(n, q)
    if ex.decide(st, norm2(bv(tail, 64) == 0)) is True: w.content = CSeg(base, q, m, f, 8 * gs)
    else:
        # elements from q on move up by m
        w.content = CSeg(CSeg(base, add64(q, m), tail, Shift(base, q), 8 * gs), q, m, f, 8 * gs)
    w.n = add64(n, m); w.ep += 1
    put_vec(ex, st, p, oid, w.ep, Lin(0).add(lin(w.n).scale(gs)))
    return Ptr(oid, pos.off, w.ep)


@model(r'std::vector<' + NB + r'.*>::insert<.*>\(__gnu_cxx::__normal_iterator')
def _(ex, st, a, c):
    t = vec_arg(c.dem[c.dem.index('std::vector<', 0) if not c.dem.startswith('__gnu_cxx') else c.dem.rindex(' std::vector<') + 1:]); gs = elem_size(ex, t); copyable(ex, t)
    return vinsert(ex, st, a[0], itp(ex, a[1]), itp(ex, a[2]), itp(ex, a[3]), gs)


@model(r'std::vector<' + NB + r'.*>::insert\(__gnu_cxx::__normal_iterator<.*>, std::initializer_list')
def _(ex, st, a, c):
    t = vec_arg(c.dem); gs = elem_size(ex, t); copyable(ex, t)
    return vinsert(ex, st, a[0], itp(ex, a[1]), a[2], a[2].at(norm(bv(lin(a[3]).scale(gs).expr(), 64))), gs)


@model(r'std::vector<' + NB + r'.*>::insert\(__gnu_cxx::__normal_iterator<.*>, unsigned long, ')
def _(ex, st, a, c):
    t = vec_arg(c.dem); gs = elem_size(ex, t); copyable(ex, t)
    v = get_elem(ex, st, a[3], gs)
    oid, o = get_vec(ex, st, a[0]); pos = itp(ex, a[1])
    q, r = o.split(pos.off)
    if ex.decide(st, norm2(bv(q, 64) == bv(o.n, 64))) is not True: raise Unsupported('insert of copies in the middle')
    w = st.w(oid); base = w.content
    w.content = CSeg(base, q, a[2], lambda d: v, 8 * gs); w.n = add64(w.n, a[2]); w.ep += 1
    put_vec(ex, st, a[0], oid, w.ep, Lin(0).add(lin(w.n).scale(gs)))
    return Ptr(oid, pos.off, w.ep)


@model(r'std::vector<' + NB + r'.*>::insert\(__gnu_cxx::__normal_iterator<.*>, [^,]*(const&|&&)\)$')
def _(ex, st, a, c):
    t = vec_arg(c.dem); gs = elem_size(ex, t); copyable(ex, t)
    v = get_elem(ex, st, a[2], gs)
    oid, o = get_vec(ex, st, a[0]); pos = itp(ex, a[1])
    q, r = o.split(pos.off)
    w = st.w(oid); base = w.content; n = w.n
    w.content = CSeg(CSeg(base, add64(q, 1), sub64(n, q), Shift(base, q), 8 * gs), q, 1, lambda d: v, 8 * gs); w.n = add64(n, 1); w.ep += 1
    put_vec(ex, st, a[0], oid, w.ep, Lin(0).add(lin(w.n).scale(gs)))
    return Ptr(oid, pos.off, w.ep)


@model(r'^(?:[\w ]+ )?std::vector<' + NB + r'.*>::(?:vector|assign)<.*>\(')
def _(ex, st, a, c):
    """range constructor / assign"""
    d = c.dem
    t = vec_arg(d); gs = elem_size(ex, t); copyable(ex, t)
    if re.search(r'::vector<', d): new_vec(ex, st, a[0], gs, 0, CList([], 8 * gs), 'vec')
    else: vclear(ex, st, a[0])
    oid, o = get_vec(ex, st, a[0])
    vinsert(ex, st, a[0], Ptr(oid, 0, o.ep), itp(ex, a[1]), itp(ex, a[2]), gs)


# --- std::vector<bool>: buffer of Bool elements, its id at offset 0 ---------------------------------------------------------------------
VB = r'^std::vector<bool, std::allocator<bool> >::'


def vb_new(ex, st, p, n, content, name='bits'):
    oid = ex.new(st, Seq(1, n, content, name, 'bits'), name)
    ex.store(st, p, 8, Ptr(oid, 0)); 
    for k in (8, 16, 24, 32): ex.store(st, p.at(k), 8, 0)
    return oid


def vb(ex, st, p):
    b = ex.load(st, p, 8)
    if not isinstance(b, Ptr) or b.o is None: raise Unsupported('vector<bool> without a buffer')
    return b.o, ex.obj(st, b, 'vector<bool> buffer')


def vbget(ex, st, o, i):
    v = ex.elem(st, o, i)
    return as_bool(v)


def as_bool(v):
    if isinstance(v, int): return v & 1
    if z3.is_bool(v): return v
    return norm(v != 0)


def as_b(v):
    """Bool-sorted z3 value or int"""
    return as_bool(v)


@model(VB + r'vector\((std::allocator<bool> const&)?\)$')
def _(ex, st, a, c): vb_new(ex, st, a[0], 0, CList([], 0))
@model(VB + r'vector\(unsigned long, bool const&, ')
def _(ex, st, a, c):
    v = as_bool(ex.load(st, a[2], 1)); vb_new(ex, st, a[0], a[1], CFn(lambda i: v))
@model(VB + r'vector\(unsigned long, std::allocator')
def _(ex, st, a, c): vb_new(ex, st, a[0], a[1], CFn(lambda i: 0))
@model(VB + r'vector\(std::vector<bool.*> const&\)$')
def _(ex, st, a, c):
    _, o = vb(ex, st, a[1]); vb_new(ex, st, a[0], o.n, o.content)
@model(VB + r'vector\(std::vector<bool.*>&&\)$')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[1]); ex.store(st, a[0], 8, Ptr(oid, 0)); vb_new(ex, st, a[1], 0, CList([], 0))
@model(VB + r'operator=\(std::vector<bool.*> const&\)$')
def _(ex, st, a, c):
    _, o = vb(ex, st, a[1]); d, _ = vb(ex, st, a[0]); n, ct = o.n, o.content
    w = st.w(d); w.n = n; w.content = ct; return a[0]
@model(VB + r'operator=\(std::vector<bool.*>&&\)$|' + VB + r'swap\(std::vector')
def _(ex, st, a, c):
    x, _ = vb(ex, st, a[0]); y, _ = vb(ex, st, a[1])
    ex.store(st, a[0], 8, Ptr(y, 0)); ex.store(st, a[1], 8, Ptr(x, 0)); return a[0]
@model(VB + r'~vector\(\)$')
def _(ex, st, a, c):
    b = ex.load(st, a[0], 8)
    if isinstance(b, Ptr) and b.o in st.mem: st.w(b.o).alive = False
@model(VB + r'size\(\) const$')
def _(ex, st, a, c): return vb(ex, st, a[0])[1].n
@model(VB + r'empty\(\) const$')
def _(ex, st, a, c): return norm(bv(vb(ex, st, a[0])[1].n, 64) == 0)
@model(VB + r'clear\(\)$')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[0]); w = st.w(oid); w.n = 0; w.content = CList([], 0)
@model(VB + r'(reserve|shrink_to_fit)\(')
def _(ex, st, a, c): vb(ex, st, a[0])
@model(VB + r'push_back\(bool\)$')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[0]); w = st.w(oid); n = w.n; v = as_bool(ex.needed(a[1]))
    w.content = CSeg(w.content, n, 1, lambda d: v, 0); w.n = add64(n, 1)
@model(r'std::vector<bool, std::allocator<bool> >::emplace_back<')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[0]); w = st.w(oid); n = w.n; v = as_bool(ex.load(st, a[1], 1))
    w.content = CSeg(w.content, n, 1, lambda d: v, 0); w.n = add64(n, 1)
    return (Ptr(oid, lin(n)), 1)
@model(VB + r'resize\(unsigned long, bool\)$')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[0]); w = st.w(oid); old = w.n; v = as_bool(a[2])
    w.content = CSeg(w.content, old, norm(z3.If(ule_(old, a[1]), bv(sub64(a[1], old), 64), z3.BitVecVal(0, 64))), lambda d: v, 0); w.n = a[1]
@model(VB + r'assign\(unsigned long, bool const&\)$')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[0]); w = st.w(oid); v = as_bool(ex.load(st, a[2], 1)); w.content = CFn(lambda i: v); w.n = a[1]
@model(VB + r'(operator\[\]|at)\(unsigned long\) const$')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[0]); ok = ult(a[1], o.n)
    if '::at(' in c.dem:
        if not ex.split(st, ok if not isinstance(ok, bool) else ok): return throw(st, '_ZTISt12out_of_range')
    else: ex.prove(st, ok, 'memory/in-bounds', 'bit %s of %s' % (a[1], o.n))
    return vbget(ex, st, o, a[1])
@model(VB + r'(operator\[\]|at)\(unsigned long\)$')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[0]); ok = ult(a[1], o.n)
    if '::at(' in c.dem:
        if not ex.split(st, ok): return throw(st, '_ZTISt12out_of_range')
    else: ex.prove(st, ok, 'memory/in-bounds', 'bit %s of %s' % (a[1], o.n))
    return (Ptr(oid, lin(a[1])), 1)
@model(r'^std::_Bit_reference::operator bool\(\) const$')
def _(ex, st, a, c):
    p = ex.load(st, a[0], 8); o = ex.obj(st, p, 'bit'); i, r = o.split(p.off)
    ex.prove(st, ult(i, o.n), 'memory/in-bounds', 'bit'); return vbget(ex, st, o, i)
@model(r'^std::_Bit_reference::operator=\((bool|std::_Bit_reference const&)\)')
def _(ex, st, a, c):
    p = ex.load(st, a[0], 8); o = ex.obj(st, p, 'bit'); i, r = o.split(p.off)
    if 'bool' in c.dem: v = as_bool(ex.needed(a[1]))
    else:
        q = ex.load(st, a[1], 8); v = vbget(ex, st, ex.obj(st, q, 'bit'), ex.obj(st, q, 'bit').split(q.off)[0])
    ex.prove(st, ult(i, o.n), 'memory/in-bounds', 'bit')
    w = st.w(p.o); w.content = CSeg(w.content, i, 1, lambda d: v, 0); return a[0]
@model(VB + r'(c?begin|c?end)\(\)( const)?$')
def _(ex, st, a, c):
    oid, o = vb(ex, st, a[0])
    e = '::end' in c.dem or '::cend' in c.dem
    if c.rt[0] == 'void': raise Unsupported('bit iterator')
    return (Ptr(oid, lin(o.n) if e else 0), 0)
# bit iterators: the pointer counts bits, the bit offset stays 0
@model(r'^std::_Bit_iterator_base::(_M_bump_up|_M_bump_down|_M_incr)\(')
def _(ex, st, a, c):
    p = ex.load(st, a[0], 8)
    if not isinstance(p, Ptr) or ex.obj(st, p, 'bit').how != 'bits': raise Unsupported('bit iterator')
    d = lin(1) if '_M_bump_up' in c.dem else lin(-1) if '_M_bump_down' in c.dem else lin(a[1])
    ex.store(st, a[0], 8, Ptr(p.o, p.off.add(d), p.ep))
@model(r'^std::operator(==|!=)\(std::_Bit_iterator_base const&, std::_Bit_iterator_base const&\)$')
def _(ex, st, a, c):
    p, q = ex.load(st, a[0], 8), ex.load(st, a[1], 8)
    if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.o != q.o: raise Unsupported('bit iterators of different vectors')
    e = norm(bv(p.off.expr(), 64) == bv(q.off.expr(), 64))
    return e if 'operator==' in c.dem else not e if isinstance(e, bool) else norm(z3.Not(e))
@model(r'^std::operator-\(std::_Bit_iterator_base const&, std::_Bit_iterator_base const&\)$')
def _(ex, st, a, c):
    p, q = ex.load(st, a[0], 8), ex.load(st, a[1], 8)
    if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.o != q.o: raise Unsupported('bit iterators of different vectors')
    return norm(bv(p.off.add(q.off, -1).expr(), 64))


@model(r'^bool std::operator==<bool, std::allocator<bool> >\(std::vector<bool')
def _(ex, st, a, c):
    _, x = vb(ex, st, a[0]); _, y = vb(ex, st, a[1])
    return seq_eq(ex, st, x, x.n, y, y.n, 0)


def seq_eq(ex, st, x, nx, y, ny, w):
    """equality of two sequences: lengths and all elements. True iff sizes equal and no index differs: fork with a witness index on 'different'"""
    if not ex.split(st, norm2(bv(nx, 64) == bv(ny, 64))): return 0
    if isinstance(nx, int) or isinstance(ny, int):
        n = nx if isinstance(nx, int) else ny
        if n <= 64:
            cs = []
            for i in range(n):
                e = ueq(x.content.get(i), y.content.get(i), w)
                if e is None: raise Unsupported('comparison of elements')
                if e is False: return 0
                if e is not True: cs.append(e)
            return norm(z3.And(*cs)) if cs else 1
    # one proposition per pair of contents and length (the instruction is executed again after the fork)
    b = z3.Bool('equal!%d!%d!%s' % (id(x.content), id(y.content), nx)); ex.kept.append((x.content, y.content))
    if ex.split(st, b):
        # equal at every index: instantiated at registered terms
        for t in st.terms:
            e = ueq(x.content.get(t), y.content.get(t), w)
            if e is None: raise Unsupported('comparison of elements')
            st.assume(z3.Implies(z3.ULT(bv(t, 64), bv(nx, 64)), e if not isinstance(e, bool) else z3.BoolVal(e)))
        return 1
    i = fresh('differs', 64)
    st.assume(z3.ULT(i, bv(nx, 64)))
    e = ueq(x.content.get(i), y.content.get(i), w)
    if e is None: raise Unsupported('comparison of elements')
    st.assume(z3.Not(e) if not isinstance(e, bool) else not e)
    st.ghost['differs'] = i; st.abs = st.abs
    return 0


# --- std::string: pointer to a character buffer, length at offset 8 ----------------------------------------------------------------------
STR = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'


def new_str(ex, st, p, n, content, name='str'):
    oid = ex.new(st, Seq(1, n, content, name), name)
    ex.store(st, p, 8, Ptr(oid, 0)); ex.store(st, p.at(8), 8, n)
    return oid


def gstr(ex, st, p):
    b = ex.load(st, p, 8)
    if not isinstance(b, Ptr) or b.o is None: raise Unsupported('string without a buffer')
    return b.o, ex.obj(st, b, 'string buffer')


def sset(ex, st, p, oid, n):
    w = st.w(oid); w.n = n; w.ep += 1
    ex.store(st, p, 8, Ptr(oid, 0, w.ep)); ex.store(st, p.at(8), 8, n)


@model(STR + r'basic_string\((std::allocator<char> const&)?\)$')
def _(ex, st, a, c): new_str(ex, st, a[0], 0, CList([], 8))
@model(STR + r'basic_string\(std::__cxx11::basic_string<.*> (const&|&&)\)$|' + STR + r'basic_string\(std::__cxx11::basic_string<.*>(&&)\)$')
def _(ex, st, a, c):
    _, o = gstr(ex, st, a[1]); new_str(ex, st, a[0], o.n, o.content)
@model(r'^(?:[\w:<>, ]+ )?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::basic_string<std::allocator<char> >\(char const\*, std::allocator<char> const&\)')
def _(ex, st, a, c):
    t = cstr(ex, st, a[1]).encode(); new_str(ex, st, a[0], len(t), CList(list(t), 8))
@model(STR + r'~basic_string\(\)$')
def _(ex, st, a, c):
    b = ex.load(st, a[0], 8)
    if isinstance(b, Ptr) and b.o in st.mem: st.w(b.o).alive = False
@model(STR + r'(size|length)\(\) const$')
def _(ex, st, a, c): return ex.load(st, a[0].at(8), 8)
@model(STR + r'empty\(\) const$')
def _(ex, st, a, c): return norm(bv(ex.load(st, a[0].at(8), 8), 64) == 0)
@model(STR + r'(reserve|shrink_to_fit)\(')
def _(ex, st, a, c): return None
@model(STR + r'clear\(\)$')
def _(ex, st, a, c):
    oid, o = gstr(ex, st, a[0]); st.w(oid).content = CList([], 8); sset(ex, st, a[0], oid, 0)
@model(STR + r'(c_str|data)\(\)( const)?$')
def _(ex, st, a, c): return ex.load(st, a[0], 8)
@model(STR + r'(c?begin|c?end)\(\)( const)?$')
def _(ex, st, a, c):
    b = ex.load(st, a[0], 8)
    return b.at(ex.load(st, a[0].at(8), 8)) if '::end' in c.dem or '::cend' in c.dem else b
@model(STR + r'operator\[\]\(unsigned long\)( const)?$')
def _(ex, st, a, c):
    b = ex.load(st, a[0], 8); o = ex.obj(st, b, 'string')
    # str[size()] is a null character; anything beyond is out of bounds
    ex.prove(st, ule(a[1], o.n), 'memory/in-bounds', 'character %s of a string of %s' % (short_(a[1]), short_(o.n)))
    if ex.decide(st, ult(a[1], o.n)) is not True:
        if not ex.split(st, ult(a[1], o.n)): return Ptr(ex.new(st, Cells(1, 'zero', 'nul', 'global'), 'nul'), 0)
    return b.at(a[1])
@model(STR + r'at\(unsigned long\)( const)?$')
def _(ex, st, a, c):
    b = ex.load(st, a[0], 8); o = ex.obj(st, b, 'string')
    if not ex.split(st, ult(a[1], o.n)): return throw(st, '_ZTISt12out_of_range')
    return b.at(a[1])


def short_(v): return str(v)[:60]


def sappend(ex, st, p, n, f):
    oid, o = gstr(ex, st, p); old = o.n
    w = st.w(oid); base = w.content
    w.content = CSeg(base, old, n, f, 8); sset(ex, st, p, oid, add64(old, n))


@model(STR + r'(push_back|operator\+=)\(char\)$')
def _(ex, st, a, c):
    v = ex.needed(a[1]); sappend(ex, st, a[0], 1, lambda d: v); return a[0]
@model(STR + r'(append|operator\+=)\(char const\*\)$')
def _(ex, st, a, c):
    t = list(cstr(ex, st, a[1]).encode()); sappend(ex, st, a[0], len(t), lambda d: CList(t, 8).get(d)); return a[0]
@model(STR + r'(append|operator\+=)\(std::__cxx11::basic_string<.*> const&\)$')
def _(ex, st, a, c):
    _, o = gstr(ex, st, a[1]); ct = o.content; sappend(ex, st, a[0], o.n, lambda d: ct.get(d)); return a[0]
@model(STR + r'append\(unsigned long, char\)$')
def _(ex, st, a, c):
    v = ex.needed(a[2]); sappend(ex, st, a[0], a[1], lambda d: v); return a[0]
@model(STR + r'operator=\(std::__cxx11::basic_string<.*> ?(const&|&&)\)$')
def _(ex, st, a, c):
    if same(a[0], a[1]): return a[0]
    _, o = gstr(ex, st, a[1]); n, ct = o.n, o.content
    oid, _ = gstr(ex, st, a[0]); st.w(oid).content = ct; sset(ex, st, a[0], oid, n); return a[0]
@model(STR + r'starts_with\(char const\*\) const$')
def _(ex, st, a, c):
    t = cstr(ex, st, a[1]).encode(); _, o = gstr(ex, st, a[0])
    if not ex.split(st, ule(len(t), o.n)): return 0
    cs = [norm2(bv(o.content.get(i), 8) == b) for i, b in enumerate(t)]
    cs = [x for x in cs if x is not True]
    if any(x is False for x in cs): return 0
    return norm(z3.And(*cs)) if cs else 1
@model(STR + r'operator std::basic_string_view<char, std::char_traits<char> >\(\) const$')
def _(ex, st, a, c):
    # returned as {length, pointer}
    return (ex.load(st, a[0].at(8), 8), ex.load(st, a[0], 8))
@model(r'^std::allocator<.*>::(~)?allocator\(|^std::__new_allocator<.*>::(~)?__new_allocator\(')
def _(ex, st, a, c): return None
@model(r'^strlen$|^std::char_traits<char>::length\(')
def _(ex, st, a, c): return len(cstr(ex, st, a[0]).encode())


# --- string streams ----------------------------------------------------------------------------------------------------------------------
SS = r'std::__cxx11::basic_o?stringstream<char, std::char_traits<char>, std::allocator<char> >::'


WIDTH, FILL, BASE = 16, 20, 24      # of the memory of a stream: a string (buffer, length), the field width, the fill character, the number base


def stream(st, p):
    """memory of the stream whose object (or whose ostream base) p points to"""
    for off in (0, 16):
        q = ('stream', str(p.at(-off)))
        if q in st.ghost: return st.ghost[q]
    raise Unsupported('output to an unknown stream')


def sfield(ex, st, m, off): return ex.load(st, m.at(off), 4)


@model(r'^' + SS + r'basic_o?stringstream\(\)$')
def _(ex, st, a, c):
    m = Ptr(ex.new(st, Cells(32, 'undef', 'stream', 'stack'), 'stream'), 0); st.ghost[('stream', str(a[0]))] = m
    new_str(ex, st, m, 0, CList([], 8), 'stream buffer')
    for off, v in ((WIDTH, 0), (FILL, 32), (BASE, 10)): ex.store(st, m.at(off), 4, v)
@model(r'^' + SS + r'~basic_o?stringstream\(\)$')
def _(ex, st, a, c): st.ghost.pop(('stream', str(a[0])), None)
@model(r'^' + SS + r'str\(\) const( &)?$')
def _(ex, st, a, c):
    # sret
    _, o = gstr(ex, st, stream(st, a[1])); new_str(ex, st, a[0], o.n, o.content)


def sput(ex, st, m, n, f):
    sappend(ex, st, m, n, f); ex.store(st, m.at(WIDTH), 4, 0)


@model(r'operator<< ?<std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, char const\*\)')
def _(ex, st, a, c):
    m = stream(st, a[0])
    if sfield(ex, st, m, WIDTH) != 0: raise Unsupported('padding of text')
    t = list(cstr(ex, st, a[1]).encode()); sput(ex, st, m, len(t), lambda d: CList(t, 8).get(d)); return a[0]
@model(r'operator<< ?<std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, char\)')
def _(ex, st, a, c):
    m = stream(st, a[0])
    if sfield(ex, st, m, WIDTH) not in (0, 1): raise Unsupported('padding of a character')
    v = a[1]; sput(ex, st, m, 1, lambda d: v); return a[0]
@model(r'operator<< ?<char, std::char_traits<char>, std::allocator<char> >\(std::basic_ostream<char, std::char_traits<char> >&, std::__cxx11::basic_string<char')
def _(ex, st, a, c):
    m = stream(st, a[0])
    if sfield(ex, st, m, WIDTH) != 0: raise Unsupported('padding of text')
    _, o = gstr(ex, st, a[1]); ct = o.content; sput(ex, st, m, o.n, lambda d: ct.get(d)); return a[0]
@model(r'^std::setfill<char>\(char\)|^std::_Setfill<char> std::setfill<char>')
def _(ex, st, a, c): return a[0]
@model(r'^std::setw\(int\)')
def _(ex, st, a, c): return a[0]
@model(r'operator<< ?<char, std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, std::_Setfill<char>\)')
def _(ex, st, a, c):
    v = ex.needed(a[1]); ex.store(st, stream(st, a[0]).at(FILL), 4, v if isinstance(v, int) else norm(z3.ZeroExt(24, bv(v, 8)))); return a[0]
@model(r'operator<< ?<char, std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, std::_Setw\)')
def _(ex, st, a, c): ex.store(st, stream(st, a[0]).at(WIDTH), 4, a[1]); return a[0]
@model(r'^std::ostream::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)|^std::basic_ostream<char, std::char_traits<char> >::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)')
def _(ex, st, a, c):
    m = stream(st, a[0])
    d = ex.dem(a[1].name) if isinstance(a[1], FnP) else '?'
    if d.startswith('std::hex('): ex.store(st, m.at(BASE), 4, 16)
    elif d.startswith('std::dec('): ex.store(st, m.at(BASE), 4, 10)
    else: raise Unsupported('manipulator ' + d)
    return a[0]


def hexd(n4):
    """lower-case digit of a nibble (BV8 or int < 16)"""
    if isinstance(n4, int): return ord('0123456789abcdef'[n4])
    return norm(z3.If(z3.ULT(n4, 10), n4 + 48, n4 + 87))


@model(r'^std::ostream::operator<<\((unsigned int|int|unsigned long|long)\)|^std::basic_ostream<char, std::char_traits<char> >::operator<<\((unsigned int|int|unsigned long|long)\)')
def _(ex, st, a, c):
    m = stream(st, a[0]); w = 32 if 'int' in c.dem.split('operator<<')[1] else 64
    width, fill, base = [sfield(ex, st, m, o) for o in (WIDTH, FILL, BASE)]
    if not all(isinstance(x, int) for x in (width, fill, base)): raise Unsupported('number in an open format')
    v = ex.needed(a[1])
    if base != 16:
        if isinstance(v, int) and width == 0:
            t = list(str(v).encode()); sput(ex, st, m, len(t), lambda d: CList(t, 8).get(d)); return a[0]
        raise Unsupported('decimal output')
    V = bv(v, w)
    if ex.holds(st, norm2(z3.ULT(V, 256))) is not True: raise Unsupported('hexadecimal output of a value above 255')
    b = norm(z3.Extract(7, 0, V))
    hi = norm(z3.LShR(bv(b, 8), 4)); lo = norm(bv(b, 8) & 15)
    if width >= 2 and fill == 48: dg = [48] * (width - 2) + [hexd(hi), hexd(lo)]     # the fill is the digit zero: one digit padded is two digits
    else:
        two = ex.split(st, norm2(bv(hi, 8) != 0))
        dg = [hexd(hi), hexd(lo)] if two else [hexd(lo)]
        dg = [fill] * max(0, width - len(dg)) + dg
    sput(ex, st, m, len(dg), lambda d: CList(dg, 8).get(d)); return a[0]
@model(r'^std::ios_base::flags\(')
def _(ex, st, a, c): return 0


# --- string views: {length, pointer} ------------------------------------------------------------------------------------------------------
SVW = r'^(constexpr )?std::basic_string_view<char, std::char_traits<char> >::'


@model(SVW + r'starts_with\(char const\*\) const$')
def _(ex, st, a, c):
    t = cstr(ex, st, a[1]).encode(); n, p = ex.load(st, a[0], 8), ex.load(st, a[0].at(8), 8)
    if not ex.split(st, ule(len(t), n)): return 0
    cs = [norm2(bv(ex.load(st, p.at(i), 1), 8) == b) for i, b in enumerate(t)]
    cs = [x for x in cs if x is not True]
    if any(x is False for x in cs): return 0
    return norm(z3.And(*cs)) if cs else 1
@model(SVW + r'substr\(unsigned long, unsigned long\) const$')
def _(ex, st, a, c):
    n, p = ex.load(st, a[0], 8), ex.load(st, a[0].at(8), 8); i, k = a[1], a[2]
    if not ex.split(st, ule(i, n)): return throw(st, '_ZTISt12out_of_range')
    r = norm(bv(n, 64) - bv(i, 64))
    return (k if ex.split(st, ule(k, r)) else r, p.at(i))


# --- algorithms on ranges ------------------------------------------------------------------------------------------------------------------
@model(r'std::(copy|copy_n)<|std::__copy_move_a\w*<|std::move<__gnu')
def _copy(ex, st, a, c):
    d = c.dem
    m = re.search(r'std::(copy|copy_n)<(.*)>\(', d)
    if re.search(r'std::copy_n<(__gnu_cxx::__normal_iterator<)?(unsigned char|char|std::byte)( const)?\*', d) and isinstance(itp(ex, a[0]), Ptr) and isinstance(itp(ex, a[2]), Ptr):
        f, n, o = itp(ex, a[0]), a[1], itp(ex, a[2])
        if is_sym(n) and n.size() != 64: raise Unsupported('call to ' + d[:120])
        if ex.decide(st, norm2(bv(n, 64) >= 1)) is not True:
            if ex.split(st, norm2(bv(n, 64) <= 0)): return o
        ex.copy(st, o, f, n); return o.at(n)
    if not d.split('(')[0].count('std::copy<'): raise Unsupported('call to ' + d[:120])
    f, l, o = itp(ex, a[0]), itp(ex, a[1]), itp(ex, a[2])
    if not all(isinstance(x, Ptr) for x in (f, l, o)): raise Unsupported('copy through ' + d[:120])
    if 'back_insert' in d: raise Unsupported('copy to an inserter')
    n = l.off.add(f.off, -1)
    if f.o != l.o: raise Unsupported('copy range of two objects')
    n = norm(bv(n.expr(), 64))
    if not isinstance(n, int): ex.prove(st, norm2(bv(n, 64) >= 0), 'library/valid-range')
    elif n >> 63: ex.prove(st, False, 'library/valid-range'); raise PathEnd()
    if not (isinstance(n, int) and n == 0): ex.copy(st, o, f, n)
    return o.at(n)


@model(r'^(std::)?(sqrt|floor|ceil|round|trunc|log2|pow|sqrtf|sqrtl|llrint|lrint)(<.*>)?\(|^(sqrt|floor|ceil|round|trunc|log2|pow|sqrtl)$|^(float|double|long double|__gnu_cxx::__enable_if.*) std::(sqrt|floor|ceil)')
def _(ex, st, a, c):
    from .fp import FPV
    return FPV
