"""Symbolic executor over LLVM IR: path-wise execution of a specification function that calls the code under contract.
Every memory access, assertion and library precondition becomes an obligation; loops whose trip count is not decided are cut
(vir/loops.py)."""
import os, re, shutil, subprocess, tempfile, time
import z3
from .vals import *
from .mem import *
from .ir import Unsupported, Module
from lib.common import Ob

z3.set_param('memory_max_size', 6000)


class NeedCut(Exception):
    def __init__(s, key): s.key = key


class PathEnd(Exception): pass


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'i', 'regs', 'allocas', 'call', 'unroll')

    def clone(f):
        r = Frame(); r.fn = f.fn; r.blk = f.blk; r.prev = f.prev; r.i = f.i; r.regs = dict(f.regs); r.allocas = f.allocas; r.call = f.call; r.unroll = f.unroll
        return r


class State:
    __slots__ = ('fr', 'mem', 'own', 'pc', 'pcn', 'exc', 'abs', 'terms', 'ghost', 'end', 'facts', 'keep')

    def clone(s):
        r = State()
        r.fr = [f.clone() for f in s.fr]; r.mem = dict(s.mem); r.own = set(); s.own = set()
        r.pc = list(s.pc); r.exc = s.exc; r.abs = s.abs; r.terms = list(s.terms); r.ghost = dict(s.ghost); r.end = s.end; r.facts = set(s.facts); r.keep = list(s.keep)
        return r

    def assume(s, c):
        if c is True or (isinstance(c, int) and c): return
        if c is False or isinstance(c, int): raise PathEnd()
        d = z3.simplify(c)
        if z3.is_true(d): return
        if z3.is_false(d): raise PathEnd()
        i = d.get_id()
        if i in s.facts: return
        s.facts.add(i); s.keep.append(d); s.pc.append(c)

    def assume_false(s): s.pc.append(z3.BoolVal(False))

    def w(s, oid):
        """object for writing"""
        o = s.mem[oid]
        if oid not in s.own: o = s.mem[oid] = o.clone(); s.own.add(oid)
        return o


class Ex:
    def __init__(s, mod, label, overrides=(), models=(), opts=None):
        s.mod = mod; s.label = label; s.overrides = list(overrides); s.models = list(models); s.o = opts or {}
        s.obs = []; s.rec = True; s.nid = 0
        s.solver = z3.Solver(); s.stack = []; s.qn = 0; s.qt = 0.0; s.slow = []
        s.kept = []; s.cache = {}; s.called = set(); s.bodies = set(); s.modelled = set(); s.deadline = time.time() + s.o.get('budget', 300)
        s.inputs = {}; s.facts_for = []; s.cands = []; s.invs = []; s.seqcands = []; s.skolems = []; s.onread = []
        s.loopinfo = []; s.fncache = {}; s.steps = 0; s.uf = {}; s.vts = {}; s.mult = []
        s.qto = s.o.get('timeout', 8000); s.names = {}; s.backends = {}; s.covered = {}; s.cutset = set(); s.lia = None

    # --- solver ----------------------------------------------------------------------------------------------------------
    def sync(s, pc):
        k = 0
        n = min(len(s.stack), len(pc))
        while k < n and s.stack[k] is pc[k]: k += 1
        if len(s.stack) > k:
            s.solver.pop(len(s.stack) - k); del s.stack[k:]
        for c in pc[k:]:
            s.solver.push(); s.solver.add(c); s.stack.append(c)

    def check(s, st, extra, to=None):
        """'sat' / 'unsat' / 'unknown' of pc and extra"""
        if time.time() > s.deadline: raise Unsupported('time budget of the specification used up')
        if isinstance(extra, (bool, int)):
            if not extra: return 'unsat'
            extra = z3.BoolVal(True)
        extra = z3.simplify(extra)
        if z3.is_false(extra): return 'unsat'
        key = (tuple(c.get_id() for c in st.pc), extra.get_id())
        r = s.cache.get(key)
        if r is not None: return r[0]
        t = time.time()
        if s.o.get('lia'):
            if s.lia is None:
                from .lia import LIA
                s.lia = LIA()
            if s.lia.unsat(st.pc, extra):
                s.backends['z3 (linear integers)'] = s.backends.get('z3 (linear integers)', 0) + 1
                s.qn += 1; s.qt += time.time() - t; s.cache[key] = ('unsat', st.pc, extra); s.model = None
                return 'unsat'
        s.sync(st.pc)
        s.solver.set('timeout', min(s.o.get('first', 1500), to or s.qto))
        s.solver.push(); s.solver.add(extra)
        r = str(s.solver.check()); m = None
        if r == 'sat': m = s.solver.model()
        s.solver.pop()
        if r == 'unknown':
            if to:
                s2 = z3.SolverFor('QF_UFBV'); s2.set('timeout', to)
                for c in st.pc: s2.add(c)
                s2.add(extra)
                r = str(s2.check())
                if r == 'sat': m = s2.model()
            else:
                r, who = portfolio(st.pc + [extra], s.qto)
                s.backends[who] = s.backends.get(who, 0) + 1
                if r == 'sat':
                    s2 = z3.SolverFor('QF_UFBV'); s2.set('timeout', 3000)
                    for c in st.pc: s2.add(c)
                    s2.add(extra)
                    if str(s2.check()) == 'sat': m = s2.model()
        else: s.backends['z3 (API)'] = s.backends.get('z3 (API)', 0) + 1
        s.qn += 1; dt = time.time() - t; s.qt += dt
        if dt > 2: s.slow.append((round(dt, 1), str(extra)[:160]))
        s.cache[key] = (r, st.pc, extra)
        s.model = m
        return r

    def decide(s, st, c):
        """True / False when the path condition settles c, else None"""
        if isinstance(c, (bool, int)): return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        a = s.check(st, c)
        if a == 'unsat': return False
        b = s.check(st, z3.Not(c))
        if b == 'unsat': return True
        return None

    def split(s, st, c):
        """decide c on this path, forking when it is open"""
        d = s.decide(st, c)
        if d is None: raise Fork(c)
        return d

    def load_quiet(s, o, off, n): return o.read(off, n)

    def model_inputs(s, m):
        r = {}
        if m is None: return r
        for n, e in s.inputs.items():
            try: r[n if isinstance(n, str) else n[0]] = str(m.eval(e, model_completion=True))
            except Exception: pass
        return r

    def under(s, st, *cs):
        """copy of the state in which the conditions hold as well; an impossible one proves everything"""
        x = st.clone()
        for c in cs:
            try: x.assume(c)
            except PathEnd: x.assume_false()
        return x

    def prove(s, st, c, name, detail=''):
        """obligation: c holds on this path; assumed afterwards"""
        ok = s.holds(st, c)
        name = s.label + '/' + name
        if ok is True:
            if s.rec: s.obs.append(Ob(name, 'ok', 'z3' if not isinstance(c, (bool, int)) else 'symbolic execution'))
            return True
        if s.rec:
            if ok is None: s.obs.append(Ob(name, 'unknown', 'z3', detail or 'solver gave no answer'))
            else:
                m = s.model_inputs(s.model) if s.model is not None else {}
                s.obs.append(Ob(name, 'failed' if st.abs else 'refuted', 'z3', '%s inputs: %s' % (detail, m), m))
        if isinstance(c, (bool, int)): raise PathEnd()
        st.assume(c)
        return False

    def holds(s, st, c):
        if isinstance(c, (bool, int)):
            if c: return True
            s.model = None
            r = s.check(st, z3.BoolVal(True))
            return True if r == 'unsat' else (False if r == 'sat' else None)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        s.model = None
        r = s.check(st, z3.Not(c))
        return {'unsat': True, 'sat': False, 'unknown': None}[r]

    # --- memory ----------------------------------------------------------------------------------------------------------
    def new(s, st, o, tag=''):
        s.nid += 1
        oid = '%s#%d' % (tag or o.how, s.nid)
        st.mem[oid] = o; st.own.add(oid)
        return oid

    def obj(s, st, p, what):
        if isinstance(p, int): p = Ptr(None, p)
        if not isinstance(p, Ptr): raise Unsupported('%s through a %s' % (what, type(p).__name__))
        if p.o is None: s.prove(st, False, 'memory/null-pointer', what); raise PathEnd()
        if isinstance(p.o, Elem): raise Unsupported('%s of an opaque object' % what)
        if p.o not in st.mem:
            if isinstance(p.o, str) and p.o.startswith('@'): s.load_global(st, p.o[1:])
            else: s.prove(st, False, 'memory/object-alive', '%s of %s' % (what, p.o)); raise PathEnd()
        o = st.mem[p.o]
        if not o.alive: s.prove(st, False, 'memory/object-alive', '%s of %s' % (what, p.o)); raise PathEnd()
        return o

    def load_global(s, st, name):
        o = s.mk_global(name)
        st.mem['@' + name] = o

    def mk_global(s, name):
        if name == 'vtable.cout':
            o = Cells(32, 'undef', name, 'global'); o.write(0, 8, 8); o.const = True
            return o
        h = s.o.get('globals', {}).get(s.dem(name))
        if h: return h(s)
        g = s.mod.global_init(name)
        if g is None: raise Unsupported('global ' + name)
        t, v, const = g
        if t == 'alias': raise Unsupported('alias ' + name)
        o = Cells(s.mod.lay(t)[0], 'undef', name, 'global'); o.const = bool(const)
        if v is None:
            if name.startswith('_ZTV') or name.startswith('_ZTI'): o.base = 'undef'; return o
            if name == '_ZSt4cout':
                # the standard output stream: only the position of its virtual base is read
                o.write(0, 8, Ptr('@vtable.cout', 24)); return o
            raise Unsupported('external global ' + name)
        s.init(o, 0, t, v)
        return o

    def init(s, o, off, t, v):
        t = s.mod.resolve(t)
        n = s.mod.lay(t)[0]
        if v[0] == 'undef': return
        if v[0] == 'zero':
            if t[0] in ('arr', 'st') and n > 64:
                o.base = 'zero' if n == o.size else o.base
                if n == o.size: return
            if t[0] == 'arr':
                for i in range(t[1]): s.init(o, off + i * s.mod.lay(t[2])[0], t[2], ('zero',))
            elif t[0] == 'st':
                for f, d in zip(t[1], s.mod.lay(t)[2]): s.init(o, off + d, f, ('zero',))
            else: o.c[off] = (n, NULL if t[0] == 'ptr' else 0)
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]): o.c[off + i] = (1, b)
            return
        if v[0] == 'agg':
            if t[0] == 'arr':
                e = s.mod.lay(t[2])[0]
                for i, (et, ev) in enumerate(v[1]): s.init(o, off + i * e, et, ev)
            else:
                for (et, ev), d in zip(v[1], s.mod.lay(t)[2]): s.init(o, off + d, et, ev)
            return
        if t[0] == 'f': return
        o.c[off] = (n, s.const(None, t, v))

    def bounds(s, st, p, n, what):
        """obligation: [p, p+n) lies inside the object; returns the object"""
        o = s.obj(st, p, what)
        off = p.off
        if o.kind == 'cells':
            if off.const():
                if not (0 <= off.c and off.c + n <= o.size): s.prove(st, False, 'memory/in-bounds', '%s of %d bytes at offset %d of %s (%d bytes)' % (what, n, off.c, p.o, o.size)); raise PathEnd()
                elif s.rec: s.obs.append(Ob(s.label + '/memory/in-bounds', 'ok', 'symbolic execution'))
            else:
                e = bv(off.expr(), 64)
                s.prove(st, z3.ULE(e, o.size - n) if o.size >= n else False, 'memory/in-bounds', '%s of %d bytes in %s (%d bytes)' % (what, n, p.o, o.size))
            return o
        if o.how == 'bits': raise Unsupported('words of a vector<bool>')
        if p.ep != o.ep and not o.fixed: raise Unsupported('access through an iterator taken before the vector grew')
        q = o.split(off)
        if q is None:
            if o.gs == 1: raise Unsupported('offset')
            raise Unsupported('element-misaligned access to %s' % o.name)
        i, r = q
        if is_sym(r):
            if n != 1 or what != 'load': raise Unsupported('%s at a symbolic position in an element of %s' % (what, o.name))
        elif o.gs > 1 and r + n > o.gs: raise Unsupported('access across elements of %s' % o.name)
        m = n if o.gs == 1 else 1
        iz = bv(i, 64); nz = bv(o.n, 64)
        c = z3.ULT(iz, nz) if m == 1 else z3.And(z3.ULE(bv(m, 64), nz), z3.ULE(iz, nz - m))
        s.prove(st, norm2(c), 'memory/in-bounds', '%s of element %s of %s (%s elements)' % (what, short(i), o.name or p.o, short(o.n)))
        return o

    def load(s, st, p, n):
        if isinstance(p, MaybeNull):
            s.prove(st, norm2(z3.Not(p.cond)) if is_sym(p.cond) else not p.cond, 'memory/null-pointer', 'load'); p = p.p
        if isinstance(p, Ptr) and isinstance(p.o, Elem):
            if p.off.const() and p.off.c == 0 and n == 8: return VPtr(p.o, 0)
            raise Unsupported('load from an opaque object')
        if isinstance(p, VPtr):
            if p.off % 8 or n != 8: raise Unsupported('vtable access')
            return VFn(p.e, p.off // 8)
        o = s.bounds(st, p, n, 'load')
        if o.kind == 'cells':
            if p.off.const(): return o.read(p.off.c, n)
            return s.load_table(st, o, p, n)
        i, r = o.split(p.off)
        if o.gs == 1:
            vs = [s.elem(st, o, add64(i, j)) for j in range(n)]
            return from_bytes(vs)
        if is_sym(r):
            v = s.elem(st, o, i); w = 8 * o.gs
            if not (isinstance(v, int) or is_sym(v)): raise Unsupported('symbolic position in a structured element')
            return norm(z3.Extract(7, 0, z3.LShR(bv(v, w), z3.ZeroExt(w - 64, r) * 8 if w > 64 else z3.Extract(w - 1, 0, r) * 8)))
        return elem_part(s.elem(st, o, i), o.gs, r, n)

    def elem(s, st, o, i):
        v = o.content.get(i)
        for f in s.onread: f(s, st, o, i, v)
        return v

    def load_table(s, st, o, p, n):
        """symbolic offset into a concretely indexed object: the stride is the gcd of the coefficients"""
        g = 0
        for e, q in p.off.t.values(): g = gcd(g, abs(q))
        base = p.off.c % g
        cnt = (o.size - base - n) // g + 1
        if cnt > 600: raise Unsupported('symbolic index into %s' % o.name)
        d = norm(bv(Lin(p.off.c - base, p.off.t).div(g).expr(), 64))
        r = None
        for j in range(cnt - 1, -1, -1):
            try: v = o.read(base + j * g, n)
            except Unsupported:
                if s.decide(st, bv(d, 64) == j) is False: continue
                raise
            if v is POISON: v = fresh('undef', 8 * n)
            if not (isinstance(v, int) or is_sym(v)):
                if s.decide(st, bv(d, 64) == j) is False: continue
                s.split(st, bv(d, 64) == j)
                raise Unsupported('symbolic index into a table of pointers')
            r = v if r is None else vifw(z3.simplify(bv(d, 64) == j), v, r, 8 * n)
        return r

    def store(s, st, p, n, v):
        o = s.bounds(st, p, n, 'store')
        if o.const: s.prove(st, False, 'memory/writable', 'store to constant %s' % p.o); raise PathEnd()
        s.note_write(st, p)
        o = st.w(p.o)
        if o.kind == 'cells':
            if p.off.const(): o.write(p.off.c, n, v); return
            g = 0
            for e, q in p.off.t.values(): g = gcd(g, abs(q))
            base = p.off.c % g
            cnt = (o.size - base - n) // g + 1
            if cnt > 600: raise Unsupported('symbolic index into %s' % o.name)
            d = bv(Lin(p.off.c - base, p.off.t).div(g).expr(), 64)
            for j in range(cnt):
                try: old = o.read(base + j * g, n)
                except Unsupported:
                    if s.decide(st, d == j) is False: continue
                    raise
                if not (isinstance(old, int) or is_sym(old) or old is POISON) and s.decide(st, d == j) is False: continue
                if old is POISON: old = fresh('undef', 8 * n)
                o.write(base + j * g, n, vifw(z3.simplify(d == j), v, old, 8 * n))
            return
        i, r = o.split(p.off)
        if o.gs == 1:
            if n == 1: s.seq_set(o, i, 1, lambda d, v=v: v)
            else:
                bs = [byte_of(v, n, j) for j in range(n)]
                s.seq_set(o, i, n, lambda d, bs=bs: CList(bs, 8).get(d))
            return
        if r == 0 and n == o.gs: nv = wrap_elem(v, n)
        else: nv = set_part(o.content.get(i), o.gs, r, n, v)
        s.seq_set(o, i, 1, lambda d, v=nv: v)

    def seq_set(s, o, i, n, f):
        o.content = CSeg(o.content, i, n, f, 8 * o.gs)

    def note_write(s, st, p): pass

    # whole ranges
    def read_range(s, st, p, n):
        """n concrete bytes as {offset: (size, value)}"""
        if n == 0: return {}
        o = s.obj(st, p, 'copy')
        if o.kind == 'cells' and p.off.const():
            s.bounds(st, p, n, 'copy'); return o.get_range(p.off.c, n)
        if o.kind == 'seq' and o.gs > 1:
            q = o.split(p.off)
            if q is None: raise Unsupported('copy from the middle of an element')
            i, r = q; out = {}; pos = 0
            while pos < n:
                m = min(n - pos, o.gs - r)
                s.bounds(st, p.at(pos), m, 'copy')
                v = s.elem(st, o, i)
                for k, x in elem_range(v, o.gs, r, m).items(): out[pos + k] = x
                pos += m; r = 0; i = add64(i, 1)
            return out
        if n > 64:
            s.bounds(st, p, n, 'copy')
        return {j: (1, s.load(st, p.at(j), 1)) for j in range(n)}

    def write_range(s, st, p, n, cells):
        if n == 0: return
        o = s.obj(st, p, 'copy')
        if o.kind == 'cells' and p.off.const():
            s.bounds(st, p, n, 'copy')
            if o.const: s.prove(st, False, 'memory/writable', 'copy to constant'); raise PathEnd()
            s.note_write(st, p)
            o = st.w(p.o); o.erase(p.off.c, n)
            if o.base != 'undef' and sum(m for m, v in cells.values()) < n:
                for j in range(n): o.c[p.off.c + j] = (1, POISON)
                for k, (m, v) in cells.items(): o.write(p.off.c + k, m, v)
                return
            for k, (m, v) in cells.items(): o.c[p.off.c + k] = (m, v)
            return
        if o.kind == 'seq' and o.gs > 1:
            q = o.split(p.off)
            if q is None or q[1] or n % o.gs: raise Unsupported('copy into the middle of an element')
            s.note_write(st, p)
            for e in range(n // o.gs):
                s.bounds(st, p.at(e * o.gs), o.gs, 'copy')
                w = st.w(p.o)
                sub = {k - e * o.gs: x for k, x in cells.items() if e * o.gs <= k < (e + 1) * o.gs}
                nv = mk_elem(sub, o.gs)
                s.seq_set(w, add64(q[0], e), 1, lambda d, v=nv: v)
            return
        if o.kind == 'seq' and n > 1:
            s.bounds(st, p, n, 'copy'); s.note_write(st, p)
            bs = [0] * n
            for k, (m, v) in cells.items():
                for j in range(m): bs[k + j] = byte_of(v, m, j)
            i, r = o.split(p.off)
            s.seq_set(st.w(p.o), i, n, lambda d, bs=bs: CList(bs, 8).get(d))
            return
        for k, (m, v) in cells.items(): s.store(st, p.at(k), m, v)

    def copy(s, st, dst, src, n):
        """memmove"""
        if isinstance(n, int):
            if n == 0: return
            if isinstance(src, Ptr) and isinstance(src.o, Elem): raise Unsupported('copy of an opaque object')
            so = s.obj(st, src, 'copy'); do = s.obj(st, dst, 'copy')
            if n <= 4096 or (so.kind == 'cells' and do.kind == 'cells'):
                s.write_range(st, dst, n, s.read_range(st, src, n)); return
        s.copy_sym(st, dst, src, n)

    def copy_sym(s, st, dst, src, n):
        if s.decide(st, norm2(bv(n, 64) == 0)) is True: return
        do = s.obj(st, dst, 'copy'); so = s.obj(st, src, 'copy')
        if do.kind == 'cells':
            # at most the rest of the destination: byte-wise conditional copy
            if not dst.off.const(): raise Unsupported('copy of symbolic length to a symbolic offset')
            room = do.size - dst.off.c
            s.prove(st, z3.ULE(bv(n, 64), room) if room >= 0 else False, 'memory/in-bounds', 'copy of %s bytes into %d bytes' % (short(n), room))
            if room > 256: raise Unsupported('copy of symbolic length into %d bytes' % room)
            s.range_inside(st, so, src, n, 'copy')
            new = []
            for j in range(room):
                old = st.mem[dst.o].byte(dst.off.c + j)
                if so.kind == 'seq':
                    if so.gs != 1: raise Unsupported('byte copy from %s' % so.name)
                    i, _ = so.split(src.off); x = so.content.get(add64(i, j))
                else: x = so.byte(src.off.c + j) if src.off.c + j < so.size else 0
                if old is POISON: old = fresh('undef', 8)
                if x is POISON: x = fresh('undef', 8)
                new.append(vifw(ult(j, n), x, old, 8))
            w = st.w(dst.o)
            for j in range(room): w.write(dst.off.c + j, 1, new[j])
            return
        s.range_inside(st, so, src, n, 'copy'); s.range_inside(st, do, dst, n, 'copy')
        if so.kind == 'cells':
            if not src.off.const(): raise Unsupported('symbolic source offset')
            if do.gs != 1: raise Unsupported('copy between different element sizes')
            room = so.size - src.off.c; bs = [so.byte(src.off.c + j) for j in range(min(room, 512))]
            if room > 512: raise Unsupported('copy of symbolic length from %d bytes' % room)
            i, _ = do.split(dst.off)
            s.seq_set(st.w(dst.o), i, n, lambda d: CList(bs, 8).get(d)); return
        if so.gs != do.gs: raise Unsupported('copy between different element sizes')
        a = so.split(src.off); b = do.split(dst.off); m = lin(n).div(so.gs)
        if a is None or b is None or a[1] or b[1] or m is None: raise Unsupported('copy of partial elements')
        m = norm(bv(m.expr(), 64)); i = a[0]; c = so.content
        s.seq_set(st.w(dst.o), b[0], m, lambda d: c.get(add64(i, d)))

    def range_inside(s, st, o, p, n, what):
        """obligation: n (symbolic) bytes at p"""
        if o.kind == 'cells':
            off = bv(p.off.expr(), 64); sz = bv(o.size, 64)
        else:
            if o.how == 'bits': raise Unsupported('words of a vector<bool>')
            if p.ep != o.ep and not o.fixed: raise Unsupported('access through an iterator taken before the vector grew')
            off = bv(p.off.expr(), 64); sz = bv(o.size, 64)
        n = bv(n, 64)
        s.prove(st, norm2(z3.Or(n == 0, z3.And(z3.ULE(off, sz), z3.ULE(n, sz - off)))), 'memory/in-bounds', '%s of %s bytes in %s' % (what, short(n), o.name or p.o))

    # --- values ----------------------------------------------------------------------------------------------------------
    def const(s, fr, t, v):
        k = v[0]
        if k == 'r': return fr.regs[v[1]]
        if k == 'c': return v[1]
        if k == 'null': return NULL
        if k == 'g':
            f = s.mod.fns.get(v[1])
            if f is not None: return FnP(v[1])
            g = s.mod.gtext.get(v[1])
            if g is not None and re.search(r'\balias\b', g[:200]):
                t_, av, _ = s.mod.global_init(v[1])
                if t_ == 'alias': return s.const(fr, t, av)
            return Ptr('@' + v[1], 0)
        if k == 'undef':
            t = s.mod.resolve(t)
            if t[0] == 'st': return tuple(s.const(fr, x, v) for x in t[1])
            if t[0] == 'arr': return tuple(s.const(fr, t[2], v) for _ in range(t[1]))
            return POISON
        if k == 'zero':
            t = s.mod.resolve(t)
            if t[0] == 'st': return tuple(s.const(fr, x, v) for x in t[1])
            if t[0] == 'arr': return tuple(s.const(fr, t[2], v) for _ in range(t[1]))
            return NULL if t[0] == 'ptr' else 0
        if k == 'agg': return tuple(s.const(fr, et, ev) for et, ev in v[1])
        if k == 'fp': return ('fp', v[1])
        if k == 'ce':
            op = v[1]
            if op == 'gep': return s.gep(None, v[2], s.const(fr, ('ptr',), v[3]), [(it, s.const(fr, it, iv)) for it, iv in v[4]])
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'): return s.const(fr, v[2], v[3])
            raise Unsupported('constant expression ' + op)
        raise Unsupported('operand ' + str(v))

    def gep(s, st, bt, p, idx):
        if isinstance(p, int): p = Ptr(None, p)
        off = Lin(0); t = bt
        for j, (it, iv) in enumerate(idx):
            if j == 0: off = off.add(s.sext(it, iv).scale(s.mod.lay(bt)[0]))
            else:
                t = s.mod.resolve(t)
                if t[0] == 'st':
                    off = off.add(Lin(s.mod.lay(t)[2][iv])); t = t[1][iv]
                elif t[0] in ('arr', 'vec'): t = t[2]; off = off.add(s.sext(it, iv).scale(s.mod.lay(t)[0]))
                else: raise Unsupported('gep into %s' % (t,))
        if isinstance(p, VPtr):
            if not off.const(): raise Unsupported('vtable arithmetic')
            return VPtr(p.e, p.off + off.c)
        if isinstance(p, FnP):
            if off.const() and off.c == 0: return p
            raise Unsupported('arithmetic on a function address')
        if p is POISON: raise Unsupported('arithmetic on an undefined pointer')
        return Ptr(p.o, p.off.add(off), p.ep)

    def sext(s, t, v):
        """index of type t as Lin"""
        w = t[1]
        if isinstance(v, int):
            if v >> (w - 1): v -= 1 << w
            return Lin(sg(v))
        if w == 64: return lin(v)
        if v is POISON: raise Unsupported('undefined index')
        return lin(norm(z3.SignExt(64 - w, bv(v, w))))

    def intrinsic_value(s, v): return v

    # --- calls -----------------------------------------------------------------------------------------------------------
    def dem(s, name):
        f = s.mod.fns.get(name)
        if f is not None and getattr(f, 'dem', None): return f.dem
        if name not in s.names:
            import subprocess
            s.names[name] = subprocess.run(['c++filt', name], stdout=subprocess.PIPE, text=True).stdout.strip() if name.startswith('_Z') else name
        return s.names[name]

    def resolve(s, name):
        """handler for a callee: ('ov'|'model', function) or ('body', Fn) or None"""
        r = s.fncache.get(name)
        if r is not None: return r
        d = s.dem(name); r = None
        for rx, h in s.overrides:
            if re.search(rx, d): r = ('ov', h, d); break
        if r is None:
            for rx, h in s.models:
                if re.search(rx, d): r = ('model', h, d); break
        if r is None:
            f = s.mod.fns.get(name)
            if f is not None and f.linkage == 'def':
                f.parse(); r = ('body', f, d)
            else: r = ('none', None, d)
        s.fncache[name] = r
        return r

    def call(s, st, callee, args, ins, atypes, rt):
        """returns (True, value) when finished in place, (False, None) when a frame was pushed"""
        if isinstance(callee, VFn):
            h = s.o.get('vcall')
            if h is None: raise Unsupported('virtual call on an opaque object')
            return True, h(s, st, callee, args, rt)
        if not isinstance(callee, FnP): raise Unsupported('call through %r' % (callee,))
        k, h, d = s.resolve(callee.name)
        if k in ('ov', 'model'):
            (s.called if k == 'ov' else s.modelled).add(d)
            return True, h(s, st, args, Call(callee.name, d, atypes, rt))
        if k == 'none': raise Unsupported('call to %s, which has neither a body nor a model' % d)
        f = h
        s.bodies.add(d)
        if len(st.fr) > 200: raise Unsupported('call depth')
        fr = Frame(); fr.fn = f; fr.blk = f.order[0]; fr.prev = None; fr.i = 0; fr.regs = {}; fr.allocas = []; fr.call = ins; fr.unroll = {}
        if len(args) != len(f.params): raise Unsupported('argument count of ' + d)
        for (t, n), a in zip(f.params, args): fr.regs[n] = a
        st.fr.append(fr)
        return False, None

    def throw(s, st, what):
        """exception propagation: pop frames up to an invoke"""
        st.exc = what
        s.unwind(st)

    def unwind(s, st):
        while len(st.fr) > 1:
            fr = st.fr.pop(); s.kill(st, fr)
            c = fr.call; f = st.fr[-1]
            if c[0] == 'invoke':
                f.prev = f.blk; f.blk = c[6]; f.i = 0
                return
        st.end = 'exc'

    def kill(s, st, fr):
        for a in fr.allocas: st.mem.pop(a, None)

    # --- running ---------------------------------------------------------------------------------------------------------
    def run(s, st, stop=None):
        """all end states of a path tree; stop(state) -> tag ends a path"""
        work = [st]; out = []
        while work:
            x = work.pop()
            try:
                tag = s.path(x, work, stop)
            except PathEnd: continue
            if tag is None: continue
            if isinstance(tag, list): work += tag
            else: out.append((tag, x))
            if len(out) + len(work) > s.o.get('paths', 6000): raise Unsupported('too many paths')
        return out

    def path(s, st, work, stop):
        while True:
            if st.end: return st.end
            fr = st.fr[-1]
            if fr.i == 0:
                if stop:
                    t = stop(st)
                    if t: return t
                if fr.blk in fr.fn.loops:
                    body = fr.fn.loops[fr.blk]
                    if (fr.prev is None or fr.prev not in body) and (fr.fn.name, fr.blk, len(st.fr)) not in fr.unroll:
                        from .loops import handle_loop
                        return handle_loop(s, st)
                    mi = s.o.get('maxiter')
                    if mi and fr.prev in body:
                        key = (fr.fn.name, fr.blk, len(st.fr)); u = fr.unroll.get(key)
                        if u is not None and u[0] < 1 << 59:
                            if u[0] >= mi: s.cutset.add(key[:2]); raise NeedCut(key)
                            fr.unroll = dict(fr.unroll); fr.unroll[key] = (u[0] + 1,) + u[1:]
            ins, text = fr.fn.blocks[fr.blk][fr.i]
            s.steps += 1
            if s.steps & 1023 == 0 and time.time() > s.deadline: raise Unsupported('time budget of the specification used up')
            try:
                r = s.step(st, fr, ins)
            except Fork as f:
                c = f.cond
                a = st.clone(); b = st
                res = []
                sa = s.check(st, c); sb = s.check(st, z3.Not(c))
                if sb != 'unsat':
                    try: b.assume(z3.Not(c)); res.append(b)
                    except PathEnd: pass
                if sa != 'unsat':
                    try: a.assume(c); res.append(a)
                    except PathEnd: pass
                if len(res) == 1 and res[0] is st: continue
                work.extend(res)
                return None
            except Unsupported as u:
                if not hasattr(u, 'at'):
                    u.at = '%s: %s' % (' < '.join(s.dem(f.fn.name)[:90] for f in reversed(st.fr[-3:])), text[:140])
                    u.args = ('%s [at %s]' % (u.args[0], u.at),)
                raise
            if r is not None:
                return r

    def goto(s, fr, b): fr.prev = fr.blk; fr.blk = b; fr.i = 0

    def step(s, st, fr, ins):
        k = ins[0]; regs = fr.regs
        if k == 'alloca':
            _, d, t, n = ins
            cnt = 1 if n is None else s.const(fr, None, n)
            if not isinstance(cnt, int): raise Unsupported('variable alloca')
            o = Cells(s.mod.lay(t)[0] * cnt, 'undef', d)
            oid = s.new(st, o, '%s:%d' % (d, len(st.fr)))
            fr.allocas = fr.allocas + [oid]; regs[d] = Ptr(oid, 0); fr.i += 1; return
        if k == 'load':
            _, d, t, p = ins
            p = s.const(fr, ('ptr',), p)
            regs[d] = s.ld(st, t, p); fr.i += 1; return
        if k == 'store':
            _, t, v, p = ins
            s.stv(st, t, s.const(fr, t, v), s.const(fr, ('ptr',), p)); fr.i += 1; return
        if k == 'gep':
            _, d, bt, p, idx, inb = ins
            regs[d] = s.gep(st, bt, s.const(fr, ('ptr',), p), [(it, s.const(fr, it, iv)) for it, iv in idx]); fr.i += 1; return
        if k == 'br':
            s.goto(fr, ins[1]); return
        if k == 'cbr':
            c = bl(s.needed(s.const(fr, ('i', 1), ins[1])))
            return s.branch(st, fr, [(c, ins[2]), (None, ins[3])])
        if k == 'switch':
            _, t, v, d, cs = ins
            v = s.needed(s.const(fr, t, v)); w = t[1]
            alts = []
            for cv, l in cs:
                cvv = s.const(fr, t, cv)
                alts.append((norm2(bv(v, w) == cvv) if not isinstance(v, int) else v == cvv, l))
            return s.branch(st, fr, alts + [(None, d)])
        if k == 'ret':
            v = None if ins[2] is None else s.const(fr, ins[1], ins[2])
            st.fr.pop(); s.kill(st, fr)
            if not st.fr: st.end = 'done'; return
            f = st.fr[-1]; c = fr.call
            if c[1] is not None: f.regs[c[1]] = v
            if c[0] == 'invoke': s.goto(f, c[5])
            else: f.i += 1
            return
        if k in ('call', 'invoke'):
            _, d, rt, callee, args = ins[:5]
            if callee[0] == 'g':
                n = callee[1]
                if n.startswith('llvm.'):
                    r = s.llvm(st, fr, n, args, rt)
                    if r is not None and d is not None: regs[d] = r
                    fr.i += 1; return
            if callee[0] == 'asm':
                h = s.o.get('asm')
                if h is None: raise Unsupported('inline assembly')
                regs[d] = h(s, st, callee[1], callee[2], [s.const(fr, t, v) for t, v in args])
                fr.i += 1; return
            cv = s.const(fr, ('ptr',), callee)
            av = [s.const(fr, t, v) for t, v in args]
            depth = len(st.fr)
            ok, v = s.call(st, cv, av, ins, [t for t, _ in args], rt)
            if not ok: return
            if len(st.fr) != depth or st.fr[-1] is not fr or st.end: return       # the handler unwound
            if st.exc is not None and isinstance(v, Thrown):
                if k == 'invoke': s.goto(fr, ins[6])
                else:
                    s.unwind(st)
                return
            if d is not None: regs[d] = v
            if k == 'invoke': s.goto(fr, ins[5])
            else: fr.i += 1
            return
        if k == 'bin':
            _, d, op, t, a, b, fl = ins
            regs[d] = s.bin(st, op, t, s.const(fr, t, a), s.const(fr, t, b), fl); fr.i += 1; return
        if k == 'icmp':
            _, d, pr, t, a, b = ins
            regs[d] = s.icmp(st, pr, t, s.const(fr, t, a), s.const(fr, t, b)); fr.i += 1; return
        if k == 'cast':
            _, d, op, ft, v, tt = ins
            regs[d] = s.cast(st, op, ft, s.const(fr, ft, v), tt); fr.i += 1; return
        if k == 'select':
            _, d, c, t, a, b = ins
            c = bl(s.needed(s.const(fr, ('i', 1), c))); a = s.const(fr, t, a); b = s.const(fr, t, b)
            if isinstance(c, bool): regs[d] = a if c else b
            elif t[0] == 'i': regs[d] = vifw(c, a, b, 0 if t[1] == 1 else t[1])
            else: regs[d] = a if s.split(st, c) else b
            fr.i += 1; return
        if k == 'phi':
            # all phis of the block at once
            vals = []; i = fr.i
            ph = fr.fn.blocks[fr.blk]
            while i < len(ph) and ph[i][0][0] == 'phi':
                _, d, t, inc = ph[i][0]
                for v, l in inc:
                    if l == fr.prev: vals.append((d, s.const(fr, t, v))); break
                else: raise Unsupported('phi without predecessor %s' % fr.prev)
                i += 1
            for d, v in vals: regs[d] = v
            fr.i = i; return
        if k == 'extractvalue':
            _, d, t, v, ix = ins
            x = s.const(fr, t, v)
            for i in ix: x = x[i]
            regs[d] = x; fr.i += 1; return
        if k == 'insertvalue':
            _, d, t, v, et, e, ix = ins
            x = s.const(fr, t, v); e = s.const(fr, et, e)
            def ins_(x, ix):
                if not ix: return e
                l = list(x); l[ix[0]] = ins_(l[ix[0]], ix[1:]); return tuple(l)
            regs[d] = ins_(x, ix); fr.i += 1; return
        if k == 'landingpad':
            sel = 0
            for c in ins[3]:
                if c[0] == 'catch':
                    if c[1][0] == 'null': sel = 1; break
                    n = c[1][1] if c[1][0] == 'g' else None
                    if exc_matches(st.exc, n): sel = typeid(n); break
            regs[ins[1]] = (Ptr('exc', 0), sel); fr.i += 1; return
        if k == 'resume':
            st.fr.pop(); s.kill(st, fr)
            # continue unwinding in the callers
            c = fr.call
            while True:
                if not st.fr: st.end = 'exc'; return
                f = st.fr[-1]
                if c is not None and c[0] == 'invoke': s.goto(f, c[6]); return
                if len(st.fr) == 1: st.end = 'exc'; return
                st.fr.pop(); s.kill(st, f); c = f.call
        if k == 'unreachable':
            if s.check(st, z3.BoolVal(True)) != 'unsat': s.prove(st, False, 'control/unreachable', 'undefined behaviour reached in ' + s.dem(fr.fn.name))
            raise PathEnd()
        if k == 'freeze':
            v = s.const(fr, None, ins[2]); regs[ins[1]] = v; fr.i += 1; return
        if k == 'fbin' or k == 'fcmp':
            h = s.o.get('fp')
            if not h: raise Unsupported('floating point')
            regs[ins[1]] = h(s, st, ins, lambda t, v: s.const(fr, t, v)); fr.i += 1; return
        raise Unsupported('instruction ' + str(ins[2] if k == 'other' else k))

    def needed(s, v):
        if v is POISON: raise Unsupported('decision on an undefined value')
        return v

    def branch(s, st, fr, alts):
        """alts: [(condition, label)...] tried in order, the last one unconditional"""
        live = []; neg = []
        for c, l in alts:
            if c is None:
                live.append((None, l)); break
            if isinstance(c, (bool, int)):
                if c: live.append((None, l)); break
                continue
            live.append((c, l))
        if len(live) == 1:
            s.goto(fr, live[0][1]); return
        # open alternatives
        feas = []; pre = []
        for c, l in live:
            cond = z3.And(*(pre + ([c] if c is not None else []))) if pre or c is not None else z3.BoolVal(True)
            if c is not None: pre.append(z3.Not(c))
            r = s.check(st, cond)
            if r != 'unsat': feas.append((cond, l))
        if not feas: raise PathEnd()
        if len(feas) == 1:
            # decided by the path condition: nothing to add
            s.goto(fr, feas[0][1]); return
        for key, (cnt, body, hdr) in fr.unroll.items():
            ins_ = [l in body for _, l in feas]
            if fr.blk in body and not all(ins_) and any(ins_) and cnt < 1 << 59:
                if cnt >= s.o.get('unroll', 0):
                    s.cutset.add(key[:2]); raise NeedCut(key)
                fr.unroll = dict(fr.unroll); fr.unroll[key] = (cnt + 1, body, hdr)
        res = []
        for n, (c, l) in enumerate(feas):
            x = st if n == len(feas) - 1 else st.clone()
            try: x.assume(c)
            except PathEnd: continue
            s.goto(x.fr[-1], l); res.append(x)
        return res

    def ld(s, st, t, p):
        t = s.mod.resolve(t)
        if t[0] in ('st', 'arr'):
            offs = s.mod.lay(t)[2] if t[0] == 'st' else [i * s.mod.lay(t[2])[0] for i in range(t[1])]
            ts = t[1] if t[0] == 'st' else [t[2]] * t[1]
            return tuple(s.ld(st, x, p.at(o)) for x, o in zip(ts, offs))
        n = s.mod.lay(t)[0]
        v = s.load(st, p, n)
        if t[0] == 'ptr' and isinstance(v, int): v = Ptr(None, v)
        if t[0] == 'i' and t[1] < 8 * n and v is not POISON:
            if isinstance(v, int): v &= (1 << t[1]) - 1
            elif is_sym(v):
                if t[1] == 1:
                    if not z3.is_bool(v): v = norm(z3.Extract(0, 0, v) == 1)
                else: v = norm(z3.Extract(t[1] - 1, 0, v))
        if t[0] == 'i' and t[1] == 8 and is_sym(v) and z3.is_bool(v): v = bv(v, 8)
        if t[0] == 'i' and isinstance(v, Ptr) and v.o is None and v.off.const(): v = v.off.c & ((1 << t[1]) - 1)
        return v

    def stv(s, st, t, v, p):
        t = s.mod.resolve(t)
        if t[0] in ('st', 'arr'):
            offs = s.mod.lay(t)[2] if t[0] == 'st' else [i * s.mod.lay(t[2])[0] for i in range(t[1])]
            ts = t[1] if t[0] == 'st' else [t[2]] * t[1]
            for x, o, e in zip(ts, offs, v): s.stv(st, x, e, p.at(o))
            return
        n = s.mod.lay(t)[0]
        if t[0] == 'i' and t[1] < 8 * n and is_sym(v):
            v = bv(v, 8 * n) if z3.is_bool(v) else norm(z3.ZeroExt(8 * n - v.size(), v))
        s.store(st, p, n, v)

    # --- arithmetic ------------------------------------------------------------------------------------------------------
    def bin(s, st, op, t, a, b, fl):
        w = t[1]; M = (1 << w) - 1
        if isinstance(a, Ptr) and a.o is None and a.off.const(): a = a.off.c & M64
        if isinstance(b, Ptr) and b.o is None and b.off.const(): b = b.off.c & M64
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if not sameobj2(a, b): raise Unsupported('difference of pointers into different objects')
                return norm(bv(a.off.add(b.off, -1).expr(), 64))
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr): return a.at(b)
            if op == 'add' and not isinstance(a, Ptr): return b.at(a)
            if op == 'sub' and isinstance(a, Ptr): return Ptr(a.o, a.off.add(lin(b), -1), a.ep)
            raise Unsupported('%s on a pointer' % op)
        if a is POISON or b is POISON: return POISON
        if w == 1:
            a, b = bl(a), bl(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return int({'xor': a ^ b, 'and': a and b, 'or': a or b}[op])
            f = {'xor': z3.Xor, 'and': z3.And, 'or': z3.Or}.get(op)
            if f is None: raise Unsupported(op + ' i1')
            return norm(f(a, b))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            s.prove(st, norm2(bv(b, w) != 0) if is_sym(b) else b != 0, 'arithmetic/division-by-zero', op)
        if op in ('shl', 'lshr', 'ashr'):
            s.prove(st, norm2(z3.ULT(bv(b, w), w)) if is_sym(b) else b < w, 'arithmetic/shift-width', op)
        if 'nsw' in fl and s.o.get('overflow', True) and op in ('add', 'sub', 'mul', 'shl') and not (isinstance(a, int) and isinstance(b, int)):
            if op != 'shl':
                f = {'add': (z3.BVAddNoOverflow, z3.BVAddNoUnderflow), 'sub': (z3.BVSubNoUnderflow, z3.BVSubNoOverflow), 'mul': (z3.BVMulNoOverflow, z3.BVMulNoUnderflow)}[op]
                A, B = bv(a, w), bv(b, w)
                if op == 'sub': c = z3.And(f[0](A, B, True), f[1](A, B))
                else: c = z3.And(f[0](A, B, True), f[1](A, B))
                s.prove(st, norm2(c), 'arithmetic/signed-overflow', '%s i%d' % (op, w))
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a; sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'udiv': r = a // b
            elif op == 'urem': r = a % b
            elif op == 'sdiv': r = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            elif op == 'srem': r = abs(sa) % abs(sb) * (-1 if sa < 0 else 1)
            elif op == 'shl': r = a << b
            elif op == 'lshr': r = a >> b
            elif op == 'ashr': r = sa >> b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            return r & M
        if w == 64:
            if op == 'add': return add64(a, b)
            if op == 'sub': return sub64(a, b)
            if op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
                k, x = (a, b) if isinstance(a, int) else (b, a)
                return norm(bv(lin(x).scale(sg(k)).expr(), 64))
            if op == 'shl' and isinstance(b, int): return norm(bv(lin(a).scale(1 << b).expr(), 64))
            if op in ('sdiv', 'udiv') and isinstance(b, int) and b:
                d = lin(a).div(sg(b))
                if d is not None:
                    if 'exact' in fl: return norm(bv(d.expr(), 64))
                    # the quotient is exact when the product did not wrap
                    q = bv(d.expr(), 64)
                    lim = z3.ULE(q, (M64 // b)) if op == 'udiv' else z3.And(q <= ((1 << 63) - 1) // b, q >= -((1 << 63) // b))
                    if s.holds(st, norm2(lim)) is True: return norm(q)
        A, B = bv(a, w), bv(b, w)
        if op == 'sdiv' and isinstance(b, int) and not b >> (w - 1) and s.holds(st, A >= 0) is True: op = 'udiv'
        if op == 'srem' and isinstance(b, int) and not b >> (w - 1) and s.holds(st, A >= 0) is True: op = 'urem'
        if op == 'urem' and isinstance(b, int) and b & (b - 1) == 0 and b: return norm(A & (b - 1))
        if op == 'udiv' and isinstance(b, int) and b & (b - 1) == 0 and b: return norm(z3.LShR(A, b.bit_length() - 1))
        if w == 64 and op in ('udiv', 'urem') and isinstance(b, int) and b > 1:
            l = lin(a); d = l.div(b)
            x = (norm(bv(d.expr(), 64)), 0) if d is not None else split_bound(l, b)
            if x is not None and s.holds(st, norm2(z3.ULE(bv(x[0], 64), (M64 - b) // b))) is True: return x[op == 'urem']
        f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'udiv': z3.UDiv, 'sdiv': lambda x, y: x / y, 'urem': z3.URem, 'srem': z3.SRem,
             'shl': lambda x, y: x << y, 'lshr': z3.LShR, 'ashr': lambda x, y: x >> y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
        if op == 'mul' and s.o.get('mul'):
            r = s.o['mul'](s, st, A, B)
            if r is not None: return r
        return norm(f(A, B))

    def icmp(s, st, pr, t, a, b):
        if isinstance(a, int) and t[0] == 'ptr': a = Ptr(None, a)
        if isinstance(b, int) and t[0] == 'ptr': b = Ptr(None, b)
        if isinstance(b, MaybeNull) and isinstance(a, Ptr) and a.o is None: a, b = b, a
        if isinstance(a, MaybeNull) and isinstance(b, Ptr) and b.o is None and b.off.const() and b.off.c == 0 and pr in ('eq', 'ne'):
            return norm(z3.If(a.cond if pr == 'eq' else z3.Not(a.cond), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))) if not isinstance(a.cond, bool) else int(a.cond == (pr == 'eq'))
        if isinstance(a, (Ptr, FnP, VPtr, VFn)) or isinstance(b, (Ptr, FnP, VPtr, VFn)):
            if isinstance(a, (FnP, VPtr, VFn)) or isinstance(b, (FnP, VPtr, VFn)):
                if pr not in ('eq', 'ne'): raise Unsupported('order of function addresses')
                if isinstance(a, FnP) and isinstance(b, FnP): e = a.name == b.name
                elif isinstance(a, Ptr) and a.o is None or isinstance(b, Ptr) and b.o is None: e = False
                else: raise Unsupported('comparison of addresses')
                return int(e if pr == 'eq' else not e)
            if isinstance(a, int): a = Ptr(None, a)
            if isinstance(b, int): b = Ptr(None, b)
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported('comparison of a pointer with an integer')
            if a is POISON or b is POISON: raise Unsupported('comparison with an undefined pointer')
            if sameobj2(a, b):
                if isinstance(a.o, Elem) and not same(a.o.idx, b.o.idx): raise Unsupported('comparison of opaque objects')
                if pr in ('eq', 'ne'):
                    d = a.off.add(b.off, -1)
                    if d.const(): e = d.c == 0; return int(e if pr == 'eq' else not e)
                    return s.icmp(st, pr, ('i', 64), norm(bv(a.off.expr(), 64)), norm(bv(b.off.expr(), 64)))
                # both inside (or one past) one object
                return s.icmp(st, {'ult': 'ult', 'ule': 'ule', 'ugt': 'ugt', 'uge': 'uge', 'slt': 'slt', 'sle': 'sle', 'sgt': 'sgt', 'sge': 'sge'}[pr], ('i', 64), norm(bv(a.off.expr(), 64)), norm(bv(b.off.expr(), 64)))
            if pr == 'eq': return 0
            if pr == 'ne': return 1
            raise Unsupported('order of pointers into different objects')
        if a is POISON or b is POISON: return POISON
        w = t[1]
        if w == 1:
            a, b = bl(a), bl(b)
            A = z3.BoolVal(a) if isinstance(a, bool) else a; B = z3.BoolVal(b) if isinstance(b, bool) else b
            if pr == 'eq': return norm(A == B)
            if pr == 'ne': return norm(A != B)
            raise Unsupported('i1 order')
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a; sb = b - (1 << w) if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pr])
        for x, y, sw in ((a, b, False), (b, a, True)):
            if is_sym(x) and isinstance(y, int):
                r = ite_map(x, lambda z: z3.BoolVal(bool(s.icmp(st, pr, t, y if sw else z, z if sw else y))))
                if r is not None: return norm(r)
        A, B = bv(a, w), bv(b, w)
        return norm({'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
                     'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[pr]())

    def cast(s, st, op, ft, v, tt):
        if v is POISON: return POISON
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if op == 'inttoptr' and isinstance(v, int): return Ptr(None, v)
            return v
        if op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
            h = s.o.get('fp')
            if not h: raise Unsupported('floating point')
            return h(s, st, ('cast', None, op, ft, v, tt), None)
        if isinstance(v, Ptr):
            raise Unsupported('%s of a pointer' % op)
        fw, tw = ft[1], tt[1]
        if is_sym(v) and fw > 1 and tw > 1 and op in ('trunc', 'zext', 'sext'):
            r = ite_map(v, lambda x: z3.BitVecVal(s.cast(st, op, ft, x, tt), tw))
            if r is not None: return norm(r)
        if op == 'trunc':
            if isinstance(v, int): return v & ((1 << tw) - 1)
            if tw == 1: return norm(z3.Extract(0, 0, v) == 1) if not z3.is_bool(v) else v
            return norm(z3.Extract(tw - 1, 0, bv(v, fw)))
        if op == 'zext':
            if isinstance(v, int): return v
            if fw == 1:
                v = bl(v)
                return int(v) if isinstance(v, bool) else norm(bv(v, tw))
            if tw == 64:
                K = widen64(v)
                if K.decl().kind() != z3.Z3_OP_SIGN_EXT and s.holds(st, z3.ULT(K, 1 << fw)) is True: return norm(K)
            return norm(z3.ZeroExt(tw - fw, v))
        if op == 'sext':
            if isinstance(v, int): return (v | (((1 << tw) - 1) ^ ((1 << fw) - 1))) if v >> (fw - 1) else v
            if fw == 1:
                v = bl(v); return ((1 << tw) - 1 if v else 0) if isinstance(v, bool) else norm(z3.If(v, z3.BitVecVal(-1, tw), z3.BitVecVal(0, tw)))
            if tw == 64:
                K = widen64(v)
                if K.decl().kind() != z3.Z3_OP_SIGN_EXT and s.holds(st, z3.And(K < (1 << (fw - 1)), K >= -(1 << (fw - 1)))) is True: return norm(K)
            if tw == 64 and fw == 32 and s.holds(st, v >= 0) is True: return norm(z3.ZeroExt(32, v))
            return norm(z3.SignExt(tw - fw, v))
        raise Unsupported(op)

    def llvm(s, st, fr, n, args, rt):
        v = lambda i: s.const(fr, args[i][0], args[i][1])
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'): s.copy(st, v(0), v(1), v(2)); return
        if n.startswith('llvm.memset'):
            p, b, c = v(0), v(1), v(2)
            if not isinstance(c, int): raise Unsupported('memset of symbolic length')
            if c == 0: return
            o = s.obj(st, p, 'memset')
            if o.kind == 'cells' and p.off.const():
                s.bounds(st, p, c, 'memset'); w = st.w(p.o); w.erase(p.off.c, c)
                if b == 0 and p.off.c == 0 and c == w.size: w.c.clear(); w.base = 'zero'
                elif b == 0 and c % 8 == 0:
                    for i in range(0, c, 8): w.c[p.off.c + i] = (8, 0)
                else:
                    for i in range(c): w.c[p.off.c + i] = (1, b)
            else:
                for i in range(c): s.store(st, p.at(i), 1, b)
            return
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.invariant')): return 0
        if n.startswith('llvm.is.constant'): return 0
        if n.startswith('llvm.expect'): return v(0)
        if n.startswith('llvm.ctlz') or n.startswith('llvm.cttz') or n.startswith('llvm.ctpop'):
            x = v(0); w = args[0][0][1]
            bits = (lambda i: norm2(z3.Extract(i, i, bv(x, w)) == 1))
            if n.startswith('llvm.ctpop'):
                if isinstance(x, int): return bin(x).count('1')
                return norm(sum((z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)), z3.BitVecVal(0, w)))
            if isinstance(x, int):
                if n.startswith('llvm.ctlz'): return w - x.bit_length()
                return w if x == 0 else (x & -x).bit_length() - 1
            r = z3.BitVecVal(w, w)
            if n.startswith('llvm.ctlz'):
                for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
            else:
                for i in range(w - 1, -1, -1): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
            return r
        if n.startswith('llvm.eh.typeid.for'):
            a = args[0][1]
            return typeid(a[1]) if a[0] == 'g' else 1
        if n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            a, b = v(0), v(1); w = rt[1]
            c = s.icmp(st, {'llvm.umin': 'ult', 'llvm.umax': 'ugt', 'llvm.smin': 'slt', 'llvm.smax': 'sgt'}[n[:9]], rt, a, b)
            return vifw(bl(c), a, b, w)
        if n.startswith('llvm.trap'):
            s.prove(st, False, 'control/trap'); raise PathEnd()
        if n.startswith('llvm.bswap'):
            x = v(0); w = rt[1] // 8
            return from_bytes([byte_of(x, w, w - 1 - i) for i in range(w)])
        if n.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow')):
            a, b = v(0), v(1); w = args[0][0][1]
            op = 'mul' if 'umul' in n else 'add'
            r = s.bin(st, op, args[0][0], a, b, ())
            if isinstance(a, int) and isinstance(b, int): return (r, int((a * b if op == 'mul' else a + b) >> w != 0))
            A, B = bv(a, w), bv(b, w)
            return (r, norm(z3.Not((z3.BVMulNoOverflow if op == 'mul' else z3.BVAddNoOverflow)(A, B, False))))
        if 'fp' in s.o and re.match(r'llvm\.(ceil|floor|sqrt|fabs|round|roundeven|trunc|log2|log|exp2|rint|nearbyint|fma|fmuladd|pow|copysign|minnum|maxnum)\.', n):
            from .fp import FPV
            return FPV
        raise Unsupported('intrinsic ' + n)


class Call:
    __slots__ = ('name', 'dem', 'at', 'rt')
    def __init__(s, n, d, at, rt): s.name = n; s.dem = d; s.at = at; s.rt = rt


class Thrown: pass


THROWN = Thrown()
_tid = {}


def typeid(n): return _tid.setdefault(n, len(_tid) + 2)


BASES = {'_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
         '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception']}


def ite_map(v, f, depth=0):
    """f applied to the leaves of a choice between constants; None for anything else"""
    if z3.is_bv_value(v): return f(v.as_long()) if depth else None
    if depth > 4 or not z3.is_app_of(v, z3.Z3_OP_ITE): return None
    a = ite_map(v.arg(1), f, depth + 1)
    if a is None: return None
    b = ite_map(v.arg(2), f, depth + 1)
    if b is None: return None
    return z3.If(v.arg(0), a, b)


def exc_matches(e, n): return e == n or n in BASES.get(e, ())


def sameobj2(a, b):
    if isinstance(a.o, Elem) or isinstance(b.o, Elem): return isinstance(a.o, Elem) and isinstance(b.o, Elem) and a.o.fam == b.o.fam
    return a.o == b.o


def short(v):
    t = str(v).replace('\n', ' ')
    return t if len(t) < 90 else t[:90] + '...'


def elem_part(v, gs, r, n):
    if isinstance(v, SV):
        h = v.c.get(r)
        if h and h[0] == n: return h[1]
        for o, (m, x) in v.c.items():
            if o <= r and r + n <= o + m: return extract(x, m, r - o, n)
        bs = []
        for j in range(r, r + n):
            for o, (m, x) in v.c.items():
                if o <= j < o + m: bs.append(byte_of(x, m, j - o)); break
            else: bs.append(POISON)
        return from_bytes(bs)
    return extract(v, gs, r, n)


def elem_range(v, gs, r, n):
    if isinstance(v, SV):
        out = {}
        for o, (m, x) in v.c.items():
            if r <= o and o + m <= r + n: out[o - r] = (m, x)
            elif o < r + n and r < o + m:
                for j in range(max(o, r), min(o + m, r + n)): out[j - r] = (1, byte_of(x, m, j - o))
        return out
    return {0: (n, extract(v, gs, r, n))}


def set_part(v, gs, r, n, x):
    if not isinstance(v, SV) and isinstance(x, (int, z3.ExprRef)) and (isinstance(v, int) or is_sym(v)):
        parts = []
        if r: parts.append(extract(v, gs, 0, r))
        parts.append((x, n))
        lo = [(extract(v, gs, 0, r), r)] if r else []
        hi = [(extract(v, gs, r + n, gs - r - n), gs - r - n)] if r + n < gs else []
        return norm(z3.Concat(*[bv(y, 8 * m) for y, m in reversed(lo + [(x, n)] + hi)]))
    c = Cells(gs)
    for o, (m, y) in (v.c if isinstance(v, SV) else {0: (gs, v)}).items(): c.c[o] = (m, y)
    c.write(r, n, x)
    return SV(dict(c.c))


def wrap_elem(v, n): return v


def mk_elem(cells, gs):
    """element value from copied cells: one bit vector when everything is scalar and dense"""
    if 0 in cells and cells[0][0] == gs: return cells[0][1]
    if all(isinstance(v, int) or (is_sym(v) and not z3.is_bool(v)) or (is_sym(v)) for m, v in cells.values()) and sum(m for m, v in cells.values()) == gs:
        ks = sorted(cells)
        if all(isinstance(cells[k][1], int) for k in ks): return sum(cells[k][1] << (8 * k) for k in ks)
        return norm(z3.Concat(*[bv(cells[k][1], 8 * cells[k][0]) for k in reversed(ks)])) if len(ks) > 1 else cells[ks[0]][1]
    return SV(dict(cells))


def portfolio(cs, ms):
    """the first definite answer of several solver processes"""
    so = z3.Solver()
    for c in cs: so.add(c)
    d = tempfile.mkdtemp(prefix='vir-smt-'); f = os.path.join(d, 'q.smt2'); ps = {}
    try:
        with open(f, 'w') as o: o.write('(set-logic ALL)\n' + so.to_smt2())
        sec = max(1, ms // 1000); g = None
        atoms = []
        for c in cs: conjuncts(c, atoms)
        keep = [c for c in atoms if not has_shift(c, set())]
        if len(keep) < len(atoms):      # the part of the hypotheses without variable shifts often suffices
            s3 = z3.Solver()
            for c in keep: s3.add(c)
            g = os.path.join(d, 'p.smt2')
            with open(g, 'w') as o: o.write('(set-logic ALL)\n' + s3.to_smt2())
        for n, cmd in (('z3-new', ['z3-new', '-T:%d' % sec, f]), ('z3', ['z3', '-T:%d' % sec, f]), ('cvc5 (integers)', ['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % ms, f])):
            try: ps[n] = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            except OSError: pass
        if g: ps['cvc5 (integers, without shifts)'] = subprocess.Popen(['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % ms, g], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        end = time.time() + sec + 2; r = ('unknown', 'none')
        while ps and time.time() < end and r[0] == 'unknown':
            time.sleep(0.02)
            for n, p in list(ps.items()):
                if p.poll() is None: continue
                w = p.stdout.read().split(); del ps[n]
                if w and (w[0] == 'unsat' or w[0] == 'sat' and 'without' not in n): r = (w[0], n); break
        return r
    finally:
        for p in ps.values():
            p.kill(); p.wait()
        shutil.rmtree(d, ignore_errors=True)


def conjuncts(x, out):
    """top-level conjuncts, looking below a single disjunction"""
    if z3.is_and(x):
        for y in x.children(): conjuncts(y, out)
    elif z3.is_not(x) and z3.is_or(x.arg(0)):
        for y in x.arg(0).children(): conjuncts(z3.Not(y), out)
    elif z3.is_implies(x) and z3.is_and(x.arg(1)):
        for y in x.arg(1).children(): conjuncts(z3.Implies(x.arg(0), y), out)
    elif z3.is_or(x):
        an = [y for y in x.children() if z3.is_and(y)]
        if not an: out.append(x); return
        g = max(an, key=lambda y: y.num_args())
        o = [y for y in x.children() if y is not g and not y.eq(g)]
        for y in g.children(): conjuncts(z3.Or(*(o + [y])), out)
    else: out.append(x)


def has_shift(x, seen):
    if x.get_id() in seen: return False
    seen.add(x.get_id())
    if x.decl().kind() in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR): return True
    return any(has_shift(y, seen) for y in x.children())
