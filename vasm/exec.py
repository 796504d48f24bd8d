"""Symbolic executor + contract engine for the SHA-256 routines (x86-64).

A routine is verified against a contract for ALL block counts n: its loops over n are cut by invariants
(inferred affine relations, re-checked inductively), loops with concrete trip counts are executed completely.
"""
import re, time
import z3
from . import terms as T
from .terms import Unsupported

M64 = (1 << 64) - 1
NMAX = 1 << 57           # 64*n bytes must fit the address space


def sgn(c):
    c &= M64
    return c - (1 << 64) if c >> 63 else c


class Lin:
    __slots__ = ('c', 's', '_h')

    def __init__(self, c=0, s=()):
        self.c = sgn(c); self.s = s; self._h = hash((self.c, s))

    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.s == o.s
    def __hash__(self): return self._h

    def __repr__(self):
        r = ' + '.join(('%s' % k if v == 1 else '%d*%s' % (v, k)) for k, v in self.s)
        return (r + (' + %d' % self.c if self.c else '')) if r else '%d' % self.c


def lin(c=0, **k): return Lin(c, tuple(sorted(k.items())))
def sym(n): return Lin(0, ((n, 1),))


def ladd(a, b, k=1):
    d = dict(a.s)
    for n, v in b.s:
        x = sgn(d.get(n, 0) + k * v)
        if x: d[n] = x
        else: d.pop(n, None)
    return Lin(a.c + k * b.c, tuple(sorted(d.items())))


def lmul(a, k): return Lin(a.c * k, tuple((n, sgn(v * k)) for n, v in a.s if sgn(v * k)))


class Bot:
    """placeholder data value in control-only runs"""
    __slots__ = ()


BOT = None
G64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
CALLEE = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
R32 = {'eax': 'rax', 'ebx': 'rbx', 'ecx': 'rcx', 'edx': 'rdx', 'esi': 'rsi', 'edi': 'rdi', 'ebp': 'rbp', 'esp': 'rsp'}
R32.update({'r%dd' % i: 'r%d' % i for i in range(8, 16)})
R8 = {'al': 'rax', 'bl': 'rbx', 'cl': 'rcx', 'dl': 'rdx', 'sil': 'rsi', 'dil': 'rdi', 'bpl': 'rbp'}
R8.update({'r%db' % i: 'r%d' % i for i in range(8, 16)})
R16 = {'ax': 'rax', 'bx': 'rbx', 'cx': 'rcx', 'dx': 'rdx', 'si': 'rsi', 'di': 'rdi', 'bp': 'rbp'}
R16.update({'r%dw' % i: 'r%d' % i for i in range(8, 16)})


class State:
    def __init__(self):
        self.g = {}; self.x = []; self.stk = {}; self.pc = []; self.flags = None
        self.D = Lin(0); self.w = {}; self.cs = []; self.marks = {}; self.dec = 0; self.ip = None
        self.steps = 0; self.loop = None; self.data = True; self.trail = []

    def copy(self):
        s = State()
        s.g = dict(self.g); s.x = [list(v) for v in self.x]; s.stk = {k: dict(v) for k, v in self.stk.items()}
        s.pc = list(self.pc); s.flags = self.flags; s.D = self.D; s.w = dict(self.w); s.cs = list(self.cs)
        s.marks = dict(self.marks); s.dec = self.dec; s.ip = self.ip; s.steps = self.steps; s.loop = self.loop
        s.data = self.data; s.trail = list(self.trail)
        return s


class Failure(Exception):
    """an obligation on the current path fails; the path is abandoned after reporting."""


class Ob:
    __slots__ = ('name', 'status', 'backend', 'detail', 'model')

    def __init__(s, name, status, backend, detail='', model=None):
        s.name, s.status, s.backend, s.detail, s.model = name, status, backend, detail, model

    def asdict(s): return {'name': s.name, 'status': s.status, 'backend': s.backend, 'detail': s.detail, 'model': s.model}


class Routine:
    """Contract of one routine.
    kind 'n':  (rdi=out, rsi=in, rdx=n)  writes digests of blocks 0..n-1
    kind '1':  (rdi=out, rsi=in)         writes the digest of one block
    """

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.preserves = set(CALLEE + ['rsp'])   # extended with what verification shows


from .insns import Insns


class Verifier(Insns):
    MAXSTEPS = 400000

    def __init__(self, obj, symbol, kind, contracts, label=None, spec_words=None, timeout=10000):
        self.o = obj; self.symbol = symbol; self.kind = kind; self.contracts = contracts
        self.label = label or symbol
        self.obs = []; self.sec, self.entry = obj.syms[symbol]
        self.syms = {}; self.fresh = 0; self.quiet = 0
        self.solver_time = 0.0; self.queries = 0
        self.insn_seen = set(); self.exts = {}
        self.exits = 0; self.exit_regs = []
        self.timeout = timeout
        self.cmpconst = set()
        self.specc = {}
        self.loopno = {}
        self.dbudget = None
        self.undecided = []
        self.loops_abstracted = 0
        self.loops_unrolled = set()
        self.calls = []
        self.memo = set(); self.hull = {}

    # ---------- solver
    def zi(self, l):
        e = z3.IntVal(l.c)
        for n, v in l.s: e = e + v * self.zs(n)
        return e

    def zs(self, n):
        if n not in self.syms: self.syms[n] = z3.Int(n)
        return self.syms[n]

    def facts(self):
        i, o, n, r = self.zs('in'), self.zs('out'), self.zs('n'), self.zs('rsp0')
        L = 1 << 47
        f = [n >= 0, n <= NMAX, i >= 4096, i + 64 * n <= L, o >= 4096, o + 32 * n <= L, r >= 1 << 20, r <= L, r % 16 == 8]
        for k in list(self.syms):
            if k.endswith('.init'): f += [self.zs(k) >= 0, self.zs(k) <= M64]
        f += [z3.Or(i + 64 * n <= r - (1 << 16), i >= r + 8), z3.Or(o + 32 * n <= r - (1 << 16), o >= r + 8)]
        if self.kind == '1': f += [n == 1]
        return f

    def check(self, st, *extra):
        """sat / unsat / unknown of pc & extra"""
        s = z3.Solver(); s.set('timeout', self.timeout)
        s.add(*self.facts(), *self.defs, *st.pc, *extra)
        t = time.time(); r = s.check(); self.solver_time += time.time() - t; self.queries += 1
        self.lastmodel = s.model() if r == z3.sat else None
        return str(r)

    defs = []

    def prove(self, st, goal):
        r = self.check(st, z3.Not(goal))
        return {'unsat': 'ok', 'sat': 'refuted'}.get(r, 'unknown')

    def ob(self, st, name, goal):
        """obligation with an arithmetic goal"""
        r = self.prove(st, goal)
        m = None
        if r == 'refuted':
            m = {k: str(self.lastmodel.eval(v, model_completion=True)) for k, v in self.syms.items()}
            if self.abstract(st): r = 'failed'
        self.record(st, name, r, 'z3', '' if r == 'ok' else 'goal %s' % goal, m)
        return r == 'ok'

    def abstract(self, st): return any(k.startswith('k!') for k in self.syms)

    def record(self, st, name, status, backend, detail='', model=None):
        if self.quiet: 
            if status != 'ok': raise Failure(name)
            return
        nm = '%s/%s' % (self.label, name)
        self.obs.append(Ob(nm, status, backend, detail, model))

    # ---------- values
    def newsym(self, pre):
        self.fresh += 1
        return '%s!%d' % (pre, self.fresh)

    def garbage(self, st, what):
        if not st.data: return BOT
        self.fresh += 1
        return T.atom(('junk', what, self.fresh))

    def regname(self, op):
        if op in self.g64: return op, 64
        if op in R32: return R32[op], 32
        if op in R8: return R8[op], 8
        if op in R16: return R16[op], 16
        return None

    g64 = set(G64)

    def get64(self, st, r): return st.g[r]

    def to32(self, st, v):
        """32-bit term of a register value"""
        if isinstance(v, Lin):
            if not v.s: return T.const(v.c) if st.data else T.const(v.c)
            # low half of a symbolic 64-bit value
            return ('lin32', v)
        return v

    # ---------- run
    def initial(self):
        st = State()
        for r in G64: st.g[r] = sym(r + '.init'); self.zs(r + '.init')
        st.g['rdi'], st.g['rsi'], st.g['rsp'] = sym('out'), sym('in'), sym('rsp0')
        if self.kind == 'n': st.g['rdx'] = sym('n')
        st.x = [[T.atom(('junk', 'xmm%d.%d' % (i, j), 0)) for j in range(8)] for i in range(16)]
        st.stk = {}
        st.ip = (self.sec, self.entry)
        self.init_g = dict(st.g)
        self.stack_store(st, sym('rsp0'), 8, Lin(0, (('ret.addr', 1),)), init=True)
        return st

    def verify(self):
        self.defs = []
        st = self.initial()
        if self.check(st) != 'sat':
            self.record(st, 'precondition-satisfiable', 'vacuous', 'z3')
            return self.obs
        self.record(st, 'precondition-satisfiable', 'ok', 'z3')
        self.explore(st)
        if not self.exits: self.record(st, 'some-path-returns', 'unknown', 'exec', 'no path reached ret')
        else: self.record(st, 'some-path-returns', 'ok', 'exec')
        return self.obs

    def explore(self, st):
        work = [st]
        while work:
            s = work.pop()
            try:
                self.path_to(s, work, None, None, True)
            except Failure:
                if self.quiet: raise
            except Unsupported as u:
                if self.quiet: raise
                self.undecided.append('%s: %s' % (s.ip, u))
                self.record(s, 'supported@%x' % (s.ip[1] if s.ip else 0), 'unknown', 'exec', str(u))

    _headers = None

    def headers(self):
        if self._headers is None:
            h = set()
            for (sec, a), i in self.o.insns.items():
                if i.mn[0] == 'j' and i.reloc is None:
                    try: t = int(i.ops[0], 16)
                    except ValueError: continue
                    if t <= a: h.add((sec, t))
            self._headers = h
        return self._headers

    # ---------- loops
    def at_header(self, st, work):
        H = st.ip
        mk = st.marks.get((H, len(st.cs)))
        if mk is not None and st.dec == mk[0]:
            # came back without any symbolic decision: concrete loop, execute it completely
            self.loops_unrolled.add(H)
            self._clear_inner(st, H)
            return st
        # trial from here in control-only mode: does an iteration contain a symbolic decision?
        if mk is None or mk[1] != 'sym':
            kind = self.trial(st, H)
            if kind == 'concrete':
                st.marks[(H, len(st.cs))] = (st.dec, 'conc')
                return st
        self.abstract_loop(st, H, work)
        return 'done'

    def _clear_inner(self, st, H):
        for k in list(st.marks):
            if k[0] != H and k[0][1] > H[1]: del st.marks[k]

    def trial(self, st, H):
        key = (H,)
        s = self.control_copy(st)
        s.dec = 0
        s.marks = {(H, len(s.cs)): (0, 'trial')}
        arr = []
        self.quiet += 1
        saved = self.save()
        try:
            self.explore_to(s, H, arr)
        except Failure: pass
        finally:
            self.quiet -= 1; self.restore(saved)
        if any(a.dec > 0 for a in arr) or not arr: return 'sym' if arr else 'concrete'
        return 'concrete'

    def save(self): return (self.exits, list(self.exit_regs), self.fresh, list(self.defs), set(self.cmpconst), list(self.calls), set(self.loops_unrolled), self.loops_abstracted)

    def restore(self, s): self.exits, self.exit_regs, _, self.defs, _, self.calls, self.loops_unrolled, self.loops_abstracted = s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]

    def control_copy(self, st):
        s = st.copy(); s.data = False
        return s

    def explore_to(self, s, H, arr):
        """run all paths from s that can come back to loop header H; collect the arrivals"""
        work = [s]; firsts = {id(s)}
        while work:
            x = work.pop()
            isfirst = id(x) in firsts
            self.path_to(x, work, H, arr, isfirst, cut=True)

    def path_to(self, st, work, H, arr, first, cut=False):
        while True:
            ins = self.o.insns.get(st.ip)
            if ins is None: raise Unsupported('control reaches %s which is not code' % (st.ip,))
            if st.ip == H and not first:
                arr.append(st); return
            if st.ip in self.headers() and st.ip != H:
                r = self.at_header(st, work)
                if r == 'done': return
                st = r
            if cut and not st.cs and st.ip not in self.reach(H): return
            first = False
            st.steps += 1
            if st.steps > self.MAXSTEPS: raise Unsupported('instruction budget exceeded')
            if not self.quiet: self.insn_seen.add(ins.mn)
            r = self.step(st, ins, work)
            if r == 'end': return

    _reach = None

    def reach(self, H):
        """addresses from which H can be reached inside the routine"""
        if self._reach is None: self._reach = {}
        if H in self._reach: return self._reach[H]
        pred = {}
        for (sec, a), i in self.o.insns.items():
            su = []
            if i.mn[0] == 'j':
                try: su.append((sec, int(i.ops[0], 16)))
                except ValueError: pass
                if i.mn != 'jmp': su.append((sec, a + i.size))
            elif i.mn != 'ret': su.append((sec, a + i.size))
            for x in su: pred.setdefault(x, []).append((sec, a))
        seen = {H}; w = [H]
        while w:
            for p in pred.get(w.pop(), []):
                if p not in seen: seen.add(p); w.append(p)
        self._reach[H] = seen
        return seen

    def locs(self, st):
        d = {}
        for r, v in st.g.items(): d[('g', r)] = v
        for i, v in enumerate(st.x):
            for j in range(8): d[('x', i, j)] = v[j]
        for base, slots in st.stk.items():
            for off, v in slots.items(): d[('s', base, off)] = v
        return d

    def setloc(self, st, loc, v):
        if loc[0] == 'g': st.g[loc[1]] = v
        elif loc[0] == 'x': st.x[loc[1]][loc[2]] = v
        else: st.stk[loc[1]][loc[2]] = v

    def generalise(self, st, delta, havoc, k, g, cands):
        s = st.copy(); s.flags = None
        s.marks = {(s.ip, len(s.cs)): (0, 'sym')}
        s.dec = 0
        L = self.locs(st)
        for loc, d in delta.items():
            base = L[loc]
            s_v = ladd(base, Lin(0, ((k, d),)))
            self.setloc(s, loc, s_v)
        for loc in havoc:
            if loc[0] == 'g': self.setloc(s, loc, self.havoc64(s))
            elif loc[0] == 'x' or loc[0] == 's':
                self.setloc(s, loc, self.garbage(s, 'havoc') if not isinstance(L.get(loc), tuple) else ('h', None))
        s.D = ladd(st.D, Lin(0, ((k, g),))) if g else st.D
        s.pc = s.pc + [self.zs(k) >= 0] + [c[1](self, s) for c in cands]
        return s

    def havoc64(self, st):
        n = self.newsym('hv')
        self.defs = self.defs + [self.zs(n) >= 0, self.zs(n) <= M64]
        return sym(n)

    def abstract_loop(self, st, H, work):
        if not self.quiet: self.loops_abstracted += 1
        no = self.loopno.setdefault(H, len(self.loopno) + 1)
        self.flush(st, 'loop%d-entry' % no)
        k = self.newsym('k')
        self.zs(k)
        # 1. infer affine deltas from a control-only iteration
        delta, havoc, g = {}, set(), None
        base = self.control_copy(st)
        S0 = self.locs(base)
        cands = []
        self.quiet += 1
        saved = self.save()
        try:
            s = base.copy(); s.marks = {(H, len(s.cs)): (0, 'sym')}
            self.cmpconst = set()
            arr = []
            self.explore_to(s, H, arr)
            ok = [a for a in arr]
            if not ok: raise Unsupported('loop without back edge')
            for a in ok:
                self.flush(a, 'infer')
                dD = ladd(a.D, base.D, -1)
                if dD.s: raise Unsupported('blocks per iteration not constant')
                if g is None: g = dD.c
                elif g != dD.c: raise Unsupported('blocks per iteration differ between paths')
                S1 = self.locs(a)
                for loc in set(S0) | set(S1):
                    u, v = S0.get(loc, 'none'), S1.get(loc, 'none')
                    if u == 'none':   # slot first written inside the loop: unknown at the header
                        continue
                    if v == 'none': havoc.add(loc); continue
                    if u is v or (isinstance(u, Lin) and u == v): 
                        if loc in delta: delta.pop(loc); havoc.add(loc)
                        continue
                    if isinstance(u, Lin) and isinstance(v, Lin):
                        d = ladd(v, u, -1)
                        if not d.s and loc not in havoc and delta.get(loc, d.c) == d.c: delta[loc] = d.c; continue
                    delta.pop(loc, None); havoc.add(loc)
            # candidate guards for varying pointers/counters
            consts = {0, 1} | set(c for c in self.cmpconst if abs(c) < 1 << 20)
            rng = []
            for loc, d in delta.items():
                for c in sorted(consts):
                    rng.append(('ge', loc, c)); rng.append(('le', loc, c))
            if g:
                for c in sorted(consts | {g}): rng.append(('rem', None, c))
            def mkc(r):
                kind, loc, c = r
                def f(self_, s_):
                    if kind == 'rem': return self_.zs('n') - self_.zi(s_.D) >= c
                    v = self_.zi(self_.locs_get(s_, loc))
                    return v >= c if kind == 'ge' else v <= c
                return (r, f)
            cands = [mkc(r) for r in rng]
            cands = [c for c in cands if self.prove(base, c[1](self, base)) == 'ok']
            # 2. Houdini
            for _ in range(60):
                gs = self.generalise(base, delta, havoc, k, g, cands)
                arr = []
                try:
                    self.explore_to(gs.copy(), H, arr)
                except Failure as f:
                    if self.traceloops: print('houdini failure', f)
                bad = set(); changed = False
                for a in arr:
                    self.flush(a, 'infer')
                    if self.check(a) == 'unsat': continue
                    for i, c in enumerate(cands):
                        if i in bad: continue
                        if self.prove(a, c[1](self, a)) != 'ok': bad.add(i)
                    S1 = self.locs(a); Sg = self.locs(gs)
                    for loc in S0:
                        if loc in havoc: continue
                        want = ladd(Sg[loc], Lin(delta[loc])) if loc in delta else Sg[loc]
                        got = S1.get(loc, 'none')
                        if not (got is want or (isinstance(want, Lin) and got == want)):
                            delta.pop(loc, None); havoc.add(loc); changed = True
                if bad: cands = [c for i, c in enumerate(cands) if i not in bad]
                if not bad and not changed: break
            else: raise Unsupported('no inductive loop invariant found')
        finally:
            self.quiet -= 1; self.restore(saved)
        # 3. verify: entry establishes, body preserves, exits continue
        if self.quiet or not st.data:
            gs = self.generalise(st, delta, havoc, k, g, cands)
            self.run_abstract(gs, H, work, None)
            return
        for c in cands: self.ob(st, 'loop%d-invariant-on-entry[%s %s %s]' % (no, c[0][0], self.locname(c[0][1]), c[0][2]), c[1](self, st))
        gs = self.generalise(st, delta, havoc, k, g, cands)
        self.cover(gs, 'loop%d-body-reachable' % no)

        def arrive(a):
            self.flush(a, 'loop%d-body' % no)
            if self.check(a) == 'unsat': return
            Sg, S1 = self.locs(gs), self.locs(a)
            same = a.D == ladd(gs.D, Lin(g))
            self.record(a, 'loop%d-progress' % no, 'ok' if same else 'unknown', 'canon', '' if same else 'D=%r' % a.D)
            bad = []
            for loc in Sg:
                if loc in havoc: continue
                want = ladd(Sg[loc], Lin(delta[loc])) if loc in delta else Sg[loc]
                got = S1.get(loc, 'none')
                if not (got is want or (isinstance(want, Lin) and got == want)): bad.append((loc, want, got))
            self.record(a, 'loop%d-invariant-locations(%d)' % (no, len(Sg) - len(havoc)), 'ok' if not bad else 'unknown', 'canon', repr(bad[:3]))
            for c in cands: self.ob(a, 'loop%d-invariant-preserved[%s %s %s]' % (no, c[0][0], self.locname(c[0][1]), c[0][2]), c[1](self, a))
            # termination: n - D decreases and stays >= 0, or a counter decreases towards a bound
            if g and g > 0:
                self.ob(a, 'loop%d-termination-measure' % no, self.zi(a.D) <= self.zs('n'))
            else:
                dec = [c for c in cands if c[0][0] == 'ge' and delta.get(c[0][1], 0) < 0]
                inc = [c for c in cands if c[0][0] == 'le' and delta.get(c[0][1], 0) > 0]
                self.record(a, 'loop%d-termination-measure' % no, 'ok' if dec or inc else 'unknown', 'houdini')
        self.run_abstract(gs, H, work, arrive)

    traceloops = False

    def run_abstract(self, gs, H, work, arrive):
        wl = [gs.copy()]; first = True
        while wl:
            s = wl.pop()
            arr = []
            try:
                self.path_to(s, wl, H, arr, first)
            except Failure:
                if self.quiet: raise
            except Unsupported as u:
                if self.quiet: raise
                self.undecided.append('%s: %s' % (s.ip, u))
                self.record(s, 'supported@%x' % (s.ip[1] if s.ip else 0), 'unknown', 'exec', str(u))
            first = False
            if arrive:
                for a in arr:
                    try: arrive(a)
                    except Failure: pass
                    except Unsupported as u:
                        self.record(a, 'supported', 'unknown', 'exec', str(u))

    def locname(self, loc): return '' if loc is None else '.'.join(str(x) for x in loc)
    def locs_get(self, st, loc): return st.g[loc[1]] if loc[0] == 'g' else st.stk[loc[1]][loc[2]]

    def cover(self, st, name):
        if self.quiet: return
        r = self.check(st)
        self.record(st, name, 'ok' if r == 'sat' else 'vacuous', 'z3')

    # ---------- memory
    def group(self, a): return a.s, a.c

    def region(self, st, a):
        names = dict(a.s)
        for n in ('in', 'out'):
            if names.get(n) == 1 and 'rsp0' not in names and not any(x.startswith('sec:') for x in names): return n
        if names.get('rsp0') == 1: return 'stack'
        secs = [x for x in names if x.startswith('sec:')]
        if len(secs) == 1 and names[secs[0]] == 1: return secs[0]
        return None

    def stack_check(self, st, a, size, what, write):
        r0 = sym('rsp0')
        k = (a, size, st.g.get('rsp'), write)
        base = a.s
        others = [b for b in st.stk if b != base and st.stk[b]]
        if base == r0.s:
            # offsets relative to entry rsp
            if isinstance(st.g['rsp'], Lin) and st.g['rsp'].s == base:
                lowok = a.c >= st.g['rsp'].c - 128
            else: lowok = None
            if write:
                ok = a.c + size <= 0
            else: ok = a.c + size <= 8 + 0 or a.c + size <= 8
            if not ok:
                self.record(st, 'stack-frame@%x' % st.ip[1], 'refuted', 'canon', '%s of %d bytes at rsp0%+d is outside the routine\'s frame' % (what, size, a.c))
                raise Failure('stack frame')
            if lowok is False:
                self.record(st, 'stack-frame@%x' % st.ip[1], 'refuted', 'canon', '%s at rsp0%+d is below the stack pointer' % (what, a.c))
                raise Failure('stack below rsp')
        key = ('stk', a, size, write, st.g['rsp'], tuple((b, min(v), max(v)) for b, v in st.stk.items() if v), len(st.pc))
        if key in self.memo: return
        z = self.zi(a)
        if base != r0.s:
            goal = z + size <= self.zs('rsp0') + (0 if write else 8)
            if self.prove(st, goal) != 'ok':
                self.record(st, 'stack-frame@%x' % st.ip[1], 'unknown', 'z3', '%s at %r not shown inside the frame' % (what, a)); raise Failure('stack')
            low = z >= self.zi(st.g['rsp']) - 128
            if self.prove(st, low) != 'ok':
                self.record(st, 'stack-frame@%x' % st.ip[1], 'unknown', 'z3', '%s at %r not shown above rsp' % (what, a)); raise Failure('stack')
        elif lowok is None:
            if self.prove(st, z >= self.zi(st.g['rsp']) - 128) != 'ok':
                self.record(st, 'stack-frame@%x' % st.ip[1], 'unknown', 'z3', '%s at %r not shown above rsp' % (what, a)); raise Failure('stack')
        for b in others:
            lo, hi = min(st.stk[b]), max(st.stk[b]) + 4
            bl = self.zi(Lin(lo, b)); bh = self.zi(Lin(hi, b))
            if self.prove(st, z3.Or(z + size <= bl, z >= bh)) != 'ok': raise Unsupported('stack slots may alias')
        self.memo.add(key)

    def stack_store(self, st, a, size, v, init=False):
        """v: Lin (8 bytes) or list of 32-bit terms"""
        if not init: self.stack_check(st, a, size, 'write', True)
        sl = st.stk.setdefault(a.s, {})
        off = a.c
        if isinstance(v, Lin):
            assert size == 8
            for o in (off - 3, off - 2, off - 1, off + 1, off + 2, off + 3, off + 5, off + 6, off + 7):
                if o in sl and o != off and o != off + 4: sl.pop(o)
            sl[off] = ('lo', v); sl[off + 4] = ('hi', v)
        else:
            for o in range(off - 3, off + 4 * len(v)):
                if o in sl and (o - off) % 4: sl.pop(o)
            for j, t in enumerate(v): sl[off + 4 * j] = t

    def stack_load(self, st, a, lanes):
        self.stack_check(st, a, 4 * lanes, 'read', False)
        sl = st.stk.get(a.s, {})
        out = []
        for j in range(lanes):
            v = sl.get(a.c + 4 * j)
            if v is None: v = self.garbage(st, 'uninit-stack')
            out.append(v)
        return out

    def addr(self, st, op, ins):
        """effective address as Lin"""
        m = re.match(r'(?:(\w+) PTR )?(?:\w+:)?\[(.*)\]$', op)
        if not m: raise Unsupported('operand %s' % op)
        e = m.group(2)
        if e.startswith('rip'):
            if ins.reloc:
                p, ty, s, add = ins.reloc
                if ty in ('R_X86_64_PC32', 'R_X86_64_PLT32', 'R_X86_64_GOTPCREL', 'R_X86_64_REX_GOTPCRELX'):
                    if 'GOT' in ty: raise Unsupported('GOT access')
                    disp = ins.addr + ins.size - p
                    if s in self.o.sections: return Lin(add + disp, (('sec:' + s, 1),))
                    if s in self.o.syms:
                        sec, off = self.o.syms[s]
                        return Lin(off + add + disp, (('sec:' + sec, 1),))
                raise Unsupported('relocation %s' % (ins.reloc,))
            m2 = re.search(r'rip([-+]0x[0-9a-f]+)', e)
            return Lin(ins.addr + ins.size + int(m2.group(1), 16), (('sec:' + st.ip[0], 1),))
        r = Lin(0)
        if ins.reloc:
            p, ty, s, add = ins.reloc
            if ty in ('R_X86_64_32S', 'R_X86_64_32') and s in self.o.sections:
                r = Lin(add, (('sec:' + s, 1),)); e = re.sub(r'[-+]0x[0-9a-f]+$', '', e)
            else: raise Unsupported('relocation %s' % (ins.reloc,))
        for tok in re.findall(r'[-+]?[^-+]+', e):
            sg = -1 if tok[0] == '-' else 1
            tok = tok.lstrip('+-')
            if tok.startswith('0x'): r = ladd(r, Lin(sg * int(tok, 16)))
            elif '*' in tok:
                a, b = tok.split('*'); r = ladd(r, lmul(self.linreg(st, a), int(b, 0)))
            else: r = ladd(r, self.linreg(st, tok))
        return r

    def linreg(self, st, r):
        if r == 'riz': return Lin(0)
        v = st.g.get(r)
        if v is None: raise Unsupported('address register %s' % r)
        if isinstance(v, Lin): return v
        raise Unsupported('address from data in %s' % r)

    def align_ob(self, st, a, al):
        reg = self.region(st, a)
        key = ('al', a, al, len(st.pc), len(self.defs))
        if key in self.memo: return
        if reg and reg.startswith('sec:'):
            sa = self.o.sections[reg[4:]][1]
            ok = sa % al == 0 and a.c % al == 0 and all(v % al == 0 for n, v in a.s if n != reg)
            st_ = 'ok' if ok else 'refuted'
            if not ok and len(a.s) > 1: st_ = 'unknown'
            self.record(st, 'alignment@%x' % st.ip[1], st_, 'canon', '' if ok else 'constant at %r not %d-byte aligned (section alignment %d)' % (a, al, sa))
        elif reg in ('in', 'out'):
            self.record(st, 'alignment@%x' % st.ip[1], 'refuted', 'canon', '%d-byte aligned access to the caller\'s %sput buffer' % (al, reg))
        else:
            self.ob(st, 'alignment@%x' % st.ip[1], self.zi(a) % al == 0)
        self.memo.add(key)

    def buf_bounds(self, st, reg, a, size):
        e = ladd(a, sym(reg), -1)
        key = ('bb', reg, e, size, len(st.pc))
        # lanes of one loop body share the proof: prove per (symbolic part) hull lazily
        hk = (reg, e.s, tuple(str(p) for p in st.pc[-6:]), st.D)
        h = self.hull.setdefault(hk, [None, None])
        lo, hi = e.c, e.c + size
        if h[0] is not None and lo >= h[0] and hi <= h[1]: return
        w = 64 if reg == 'in' else 32
        L = Lin(0, e.s)
        r = self.prove(st, z3.And(self.zi(L) + lo >= 0, self.zi(L) + hi <= w * self.zs('n')))
        if r == 'ok':
            h[0] = lo if h[0] is None else min(lo, h[0]); h[1] = hi if h[1] is None else max(hi, h[1])
            self.record(st, '%sput-bounds@%x' % (reg, st.ip[1]), 'ok', 'z3')
        else:
            m = None
            if self.lastmodel is not None: m = {k: str(self.lastmodel.eval(v, model_completion=True)) for k, v in self.syms.items()}
            self.record(st, '%sput-bounds@%x' % (reg, st.ip[1]), r, 'z3', 'access of %d bytes at %r' % (size, a), m)
            raise Failure('bounds')

    def load(self, st, a, lanes):
        reg = self.region(st, a)
        if reg == 'stack':
            r = self.stack_load(st, a, lanes)
            out = []
            for v in r:
                if isinstance(v, tuple):
                    if v[0] == 'h': out.append(self.garbage(st, 'havoc'))
                    elif v[0] == 'lo' and not v[1].s: out.append(T.const(v[1].c))
                    elif v[0] == 'hi' and not v[1].s: out.append(T.const(v[1].c >> 32))
                    else: out.append(self.garbage(st, 'half-pointer'))
                else: out.append(v)
            return out
        if reg == 'in':
            self.buf_bounds(st, 'in', a, 4 * lanes)
            if not st.data: return [BOT] * lanes
            e = ladd(a, sym('in'), -1)
            return [self.inword(Lin(e.c + 4 * j, e.s)) for j in range(lanes)]
        if reg == 'out':
            self.record(st, 'reads-only-input@%x' % st.ip[1], 'unknown', 'canon', 'reads the output buffer at %r' % a)
            raise Failure('read out')
        if reg and reg.startswith('sec:'):
            b, al, w = self.o.sections[reg[4:]]
            if len(a.s) > 1: raise Unsupported('symbolic index into constant table')
            if a.c < 0 or a.c + 4 * lanes > len(b):
                self.record(st, 'table-bounds@%x' % st.ip[1], 'refuted', 'canon', 'reads %s%+d beyond %d bytes' % (reg, a.c, len(b))); raise Failure('table')
            return [T.const(int.from_bytes(b[a.c + 4 * j:a.c + 4 * j + 4], 'little')) for j in range(lanes)]
        self.record(st, 'reads-only-input@%x' % st.ip[1], 'unknown', 'canon', 'read at %r, not in any buffer of the contract' % a)
        raise Failure('read')

    def inword(self, e):
        r = e.c % 4
        if r == 0: return T.atom(('in', e))
        lo = T.atom(('in', Lin(e.c - r, e.s))); hi = T.atom(('in', Lin(e.c - r + 4, e.s)))
        return T.xor(T.shr(lo, 8 * r), T.shl(hi, 32 - 8 * r))

    def store(self, st, a, v):
        lanes = len(v)
        reg = self.region(st, a)
        if reg == 'stack': return self.stack_store(st, a, 4 * lanes, list(v))
        if reg == 'out':
            self.buf_bounds(st, 'out', a, 4 * lanes)
            e = ladd(a, sym('out'), -1)
            for j in range(lanes): st.w[Lin(e.c + 4 * j, e.s)] = v[j]
            return
        self.record(st, 'writes-only-output@%x' % st.ip[1], 'refuted' if reg in ('in',) or (reg or '').startswith('sec:') else 'unknown', 'canon', 'write at %r' % a)
        raise Failure('write')

    # ---------- digest obligations
    def spec(self, blk):
        r = self.specc.get(blk)
        if r is None:
            o = lmul(blk, 64)
            r = T.sha256_64([T.bswap(self.inword(Lin(o.c + 4 * j, o.s))) for j in range(16)])
            r = [T.bswap(x) for x in r]
            self.specc[blk] = r
        return r

    def flush(self, st, where):
        """every pending output word must belong to the next blocks' digests, in full"""
        if not st.w: return
        base = lmul(st.D, 32)
        rel = {}
        for a, v in st.w.items():
            d = ladd(a, base, -1)
            if d.s or d.c % 4:
                # try to equate with the solver
                self.record(st, '%s/output-position' % where, 'unknown', 'canon', 'write at out+%r while %r blocks are done' % (a, st.D))
                raise Failure('position')
            rel[d.c] = v
        m = max(rel) + 4
        g = (m + 31) // 32
        missing = [o for o in range(0, 32 * g, 4) if o not in rel]
        neg = [o for o in rel if o < 0]
        if neg:
            self.record(st, '%s/output-position' % where, 'unknown', 'canon', 'rewrites finished digest at offset %d' % neg[0]); raise Failure('rewrites')
        if missing:
            self.record(st, '%s/digest-complete' % where, 'unknown', 'canon', 'bytes %s.. of the next digests not written' % missing[:4]); raise Failure('incomplete')
        self.record(st, '%s/digest-complete' % where, 'ok', 'canon')
        if st.data:
            for b in range(g):
                sp = self.spec(ladd(st.D, Lin(b)))
                for j in range(8):
                    got = rel[32 * b + 4 * j]
                    ok = got is sp[j]
                    if ok: self.record(st, '%s/digest[%d].word[%d]' % (where, b, j), 'ok', 'canon')
                    else: self.mismatch(st, '%s/digest[%d].word[%d]' % (where, b, j), got, sp[j])
        st.D = ladd(st.D, Lin(g)); st.w = {}

    def mismatch(self, st, name, got, want):
        import random
        rnd = random.Random(1)
        leaves = T.leaf_atoms(got) | T.leaf_atoms(want)
        junk = [l for l in leaves if l[0] == 'junk']
        for trial in range(8):
            vals = {}
            def env(d):
                if d not in vals: vals[d] = rnd.getrandbits(32)
                return vals[d]
            c = {}
            g, w = T.evaluate(got, env, c), T.evaluate(want, env, c)
            if g != w:
                words = {repr(d[1]): v for d, v in vals.items() if d[0] == 'in'}
                self.record(st, name, 'refuted', 'canon+eval', 'computes %08x, SHA-256 gives %08x%s' % (g, w, ' (depends on uninitialised %s)' % (junk[0],) if junk else ''), {'input_words': words})
                return
        self.record(st, name, 'unknown', 'canon', 'normal forms differ but no differing input was found')

    # ---------- calls
    def call(self, st, target, ins, work, tail=False):
        c = self.contracts.get(target)
        if c is None: raise Unsupported('call to %s without contract' % target)
        self.flush(st, 'call-%s' % target)
        D = st.D
        if not self.quiet: self.calls.append(target)
        di, si = st.g['rdi'], st.g['rsi']
        nn = Lin(1) if c.kind == '1' else st.g['rdx']
        good = isinstance(di, Lin) and isinstance(si, Lin) and isinstance(nn, Lin)
        if not good: raise Unsupported('call arguments not tracked')
        sp = st.g['rsp']
        ok = True
        w = 'call-%s@%x' % (target, ins.addr)
        # an empty call is always allowed
        zero = z3.And(self.zi(nn) == 0)
        if c.kind == 'n':
            ok &= self.ob(st, w + '/count-in-range', z3.And(self.zi(nn) >= 0, self.zi(nn) <= NMAX))
        ok &= self.ob(st, w + '/out-argument', z3.Or(zero, self.zi(di) == self.zs('out') + 32 * self.zi(D)))
        ok &= self.ob(st, w + '/in-argument', z3.Or(zero, self.zi(si) == self.zs('in') + 64 * self.zi(D)))
        ok &= self.ob(st, w + '/blocks-available', self.zi(D) + self.zi(nn) <= self.zs('n'))
        ok &= self.ob(st, w + '/stack-alignment', (self.zi(sp) + (8 if tail else 0)) % 16 == 0)
        if not ok: raise Failure('call')
        st.D = ladd(D, nn)
        for r in G64:
            if r not in c.preserves: st.g[r] = self.havoc64(st)
        st.x = [[self.garbage(st, 'callee-clobbered') for j in range(8)] for i in range(16)]
        self.drop_below(st, sp)
        st.flags = None

    def drop_below(self, st, sp):
        for b in list(st.stk):
            if b == sp.s:
                for o in list(st.stk[b]):
                    if o < sp.c: del st.stk[b][o]
            else:
                # other symbolic base: keep only slots provably at or above sp
                keep = {}
                if st.stk[b]:
                    lo = min(st.stk[b])
                    if self.prove(st, self.zi(Lin(lo, b)) >= self.zi(sp)) == 'ok': keep = st.stk[b]
                st.stk[b] = keep

    def do_ret(self, st, ins):
        sp = st.g['rsp']
        if st.cs:
            raise Unsupported('nested return')
        if self.quiet:
            return 'end'
        self.flush(st, 'return')
        self.exits += 1
        ok = sp == sym('rsp0')
        ra = st.stk.get(sym('rsp0').s, {}).get(0)
        self.record(st, 'return/stack-pointer', 'ok' if ok else 'refuted' if isinstance(sp, Lin) and sp.s == sym('rsp0').s else 'unknown', 'canon', '' if ok else 'rsp = %r' % sp)
        okra = ra == ('lo', Lin(0, (('ret.addr', 1),)))
        self.record(st, 'return/return-address-intact', 'ok' if okra else 'refuted', 'canon')
        for r in CALLEE:
            v = st.g[r]
            ok = v == self.init_g[r]
            self.record(st, 'return/callee-saved-%s' % r, 'ok' if ok else 'refuted', 'canon', '' if ok else '%s = %r' % (r, v))
        self.ob(st, 'return/all-blocks-done', self.zi(st.D) == self.zs('n'))
        self.exit_regs.append({r: (st.g[r] == self.init_g[r]) for r in G64 if r != 'rsp'})
        return 'end'

    # ---------- branches
    def wrap(self, st, v, bits, signed):
        """integer value of a flag operand"""
        e = v if not isinstance(v, Lin) else self.zi(v)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if isinstance(v, Lin) and not v.s:
            c = v.c & ((1 << bits) - 1)
            if signed and c >> (bits - 1): c -= 1 << bits
            return z3.IntVal(c)
        key = ('wr', v, bits, signed, tuple(str(p) for p in st.pc))
        if key not in self.memo:
            if self.prove(st, z3.And(e >= lo, e <= hi)) != 'ok':
                u = e % (1 << bits)
                return z3.If(u > hi, u - (1 << bits), u) if signed else u
            self.memo.add(key)
        return e

    def cond(self, st, cc):
        f = st.flags
        if f is None: raise Unsupported('branch on unknown flags')
        kind, bits, a, b = f
        cc = {'z': 'e', 'nz': 'ne', 'c': 'b', 'nc': 'ae', 'nae': 'b', 'nb': 'ae', 'na': 'be', 'nbe': 'a', 'nge': 'l', 'nl': 'ge', 'ng': 'le', 'nle': 'g'}.get(cc, cc)
        if kind == 'cmp':
            u = lambda v: self.wrap(st, v, bits, False)
            s = lambda v: self.wrap(st, v, bits, True)
            if cc in ('e', 'ne'):
                e = u(a) == u(b)
                return e if cc == 'e' else z3.Not(e)
            if cc in ('b', 'ae', 'be', 'a'):
                x, y = u(a), u(b)
                return {'b': x < y, 'ae': x >= y, 'be': x <= y, 'a': x > y}[cc]
            if cc in ('l', 'ge', 'le', 'g'):
                x, y = s(a), s(b)
                return {'l': x < y, 'ge': x >= y, 'le': x <= y, 'g': x > y}[cc]
            if cc in ('s', 'ns'):
                d = s(ladd(a, b, -1))
                return d < 0 if cc == 's' else d >= 0
        if kind == 'res':   # logical/inc/dec result; ZF and SF only (plus CF=OF=0 when b is True)
            if cc in ('e', 'ne'):
                e = self.wrap(st, a, bits, False) == 0
                return e if cc == 'e' else z3.Not(e)
            if cc in ('s', 'ns'):
                e = self.wrap(st, a, bits, True) < 0
                return e if cc == 's' else z3.Not(e)
            if b:
                sv = self.wrap(st, a, bits, True)
                m = {'l': sv < 0, 'ge': sv >= 0, 'le': sv <= 0, 'g': sv > 0, 'b': z3.BoolVal(False), 'ae': z3.BoolVal(True),
                     'be': sv == 0, 'a': sv != 0}
                if cc in m: return m[cc]
            raise Unsupported('condition %s after increment' % cc)
        if kind == 'add' and cc in ('b', 'ae'):
            c = self.wrap(st, a, bits, False) + self.wrap(st, b, bits, False) >= (1 << bits)
            return c if cc == 'b' else z3.Not(c)
        if kind == 'add':
            r = ladd(a, b)
            if cc in ('e', 'ne'):
                e = self.wrap(st, r, bits, False) == 0
                return e if cc == 'e' else z3.Not(e)
            if cc in ('s', 'ns'):
                e = self.wrap(st, r, bits, True) < 0
                return e if cc == 's' else z3.Not(e)
        raise Unsupported('condition %s' % cc)

    def branch(self, st, cc, target, nxt, work):
        f = st.flags
        if f and f[0] == 'cmp':
            for v in (f[2], f[3]):
                if isinstance(v, Lin) and not v.s: self.cmpconst.add(v.c); self.cmpconst.add(v.c - 1); self.cmpconst.add(v.c + 1)
        c = z3.simplify(self.cond(st, cc))
        if z3.is_true(c): st.ip = target; return
        if z3.is_false(c): st.ip = nxt; return
        t = self.check(st, c); f = self.check(st, z3.Not(c))
        if t == 'unsat' and f == 'unsat':
            st.ip = nxt; raise Failure('infeasible')   # dead path
        if f == 'unsat': st.ip = target; st.dec += 1; return
        if t == 'unsat': st.ip = nxt; st.dec += 1; return
        s2 = st.copy()
        st.dec += 1; s2.dec += 1
        s2.pc.append(z3.Not(c)); s2.ip = nxt
        st.pc.append(c); st.ip = target
        work.append(s2)

