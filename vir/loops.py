"""Loops whose trip count is open are cut at their header: the state after k iterations is described by closed forms in k (inferred affine
cells, appended contents, or forms the specification proposes) and by invariants (proposed by the specification or read off the loop's own
comparisons). Every form and invariant is checked to hold on entry and to be preserved by one arbitrary iteration; the ones that are not are
dropped (Houdini), so nothing is assumed that was not proved."""
import z3, time
from .vals import *
from .mem import *
from . import mem as _mem
from .ir import Unsupported
from lib.common import Ob


class L:
    """what a specification's loop hook sees"""
    pass


def handle_loop(ex, st):
    from .ex import NeedCut
    fr = st.fr[-1]; depth = len(st.fr); hdr = fr.blk; body = fr.fn.loops[hdr]
    key = (fr.fn.name, hdr, depth)

    def left(x):
        if len(x.fr) < depth: return 'left'
        if len(x.fr) == depth and x.fr[-1].blk not in body: return 'left'
        return None
    if (fr.fn.name, hdr) not in ex.cutset:
        n0 = len(ex.obs)
        c = st.clone(); f = c.fr[-1]; f.unroll = dict(f.unroll); f.unroll[key] = (0, body, hdr)
        try:
            outs = ex.run(c, left)
            res = []
            for t, x in outs:
                if len(x.fr) >= depth and key in x.fr[depth - 1].unroll:
                    g = x.fr[depth - 1]; g.unroll = {a: b for a, b in g.unroll.items() if a != key}
                res.append(x)
            return res
        except NeedCut as n:
            if n.key != key: raise
            del ex.obs[n0:]
    # the specification may ask for some iterations to be executed before the cut
    n = ex.o['peel'](ex, fr) if 'peel' in ex.o else 0
    cur = [st]; out = []
    for _ in range(n):
        nxt = []
        for x in cur:
            back, rest = Cut(ex, x, key, body, hdr, depth).iterate(x, True); out += rest; nxt += back
        cur = nxt
    for x in cur: out += Cut(ex, x, key, body, hdr, depth).run()
    return out


class Cell:
    """one modified location; oid, off, n; n is None for the length of a sequence"""
    __slots__ = ('oid', 'off', 'n', 'form', 'cands', 'ci')

    def __init__(s, oid, off, n): s.oid = oid; s.off = off; s.n = n; s.form = None; s.cands = None; s.ci = 0
    def key(s): return (s.oid, s.off, s.n)
    def bits(s): return 64 if s.n is None else 8 * s.n

    def get(s, st):
        o = st.mem[s.oid]
        if s.n is None: return o.n
        h = o.c.get(s.off)
        if h is not None and h[0] == s.n: return h[1]
        return o.read(s.off, s.n)

    def put(s, st, v):
        o = st.w(s.oid)
        if s.n is None: o.n = v
        else: o.write(s.off, s.n, v)

    def __repr__(s): return '%s+%s:%s' % (s.oid, s.off, s.n)


class Cut:
    def __init__(c, ex, st, key, body, hdr, depth):
        c.ex = ex; c.st = st; c.key = key; c.body = body; c.hdr = hdr; c.depth = depth
        c.cells = {}; c.seqs = {}; c.mess = set(); c.k = fresh('k', 64); c.bounds = []; c.log = []; c.axioms = []; c.tried = set()

    # one iteration from header state h
    def iterate(c, h, rec):
        ex = c.ex; save = ex.rec; ex.rec = rec and save
        f = h.fr[-1]; f.prev = '#loop'; f.blk = c.hdr; f.i = 0
        first = [True]
        body = c.body; depth = c.depth; hdr = c.hdr

        def stop(x):
            if len(x.fr) < depth: return 'left'
            if len(x.fr) == depth:
                b = x.fr[-1].blk
                if b == hdr and x.fr[-1].prev in body: return 'back'
                if b not in body: return 'left'
            return None
        f.unroll = dict(f.unroll); f.unroll[c.key] = (1 << 60, body, hdr)
        try: outs = ex.run(h, stop)
        finally: ex.rec = save
        back = [x for t, x in outs if t == 'back']; rest = [x for t, x in outs if t != 'back']
        for x in back + rest:
            if len(x.fr) >= depth and c.key in x.fr[depth - 1].unroll:
                g = x.fr[depth - 1]; g.unroll = {a: b for a, b in g.unroll.items() if a != c.key}
        return back, rest

    def header(c):
        """state after k iterations"""
        ex = c.ex; h = c.st.clone()
        for oid in c.mess:
            o = h.w(oid); o.c.clear(); o.base = 'undef'
        for oid, q in c.seqs.items():
            o = h.w(oid)
            o.content = q.content(c)
        for cell in c.cells.values():
            cell.put(h, c.value(cell, c.k, h))
        for a in c.axioms: h.assume(a(c.k))
        return h

    def value(c, cell, k, h):
        f = cell.form; t = f[0]
        if t == 'free': return f[1]
        if t == 'poison': return POISON
        if t == 'aff': return aff(f[1], f[2], k, cell.bits())
        if t == 'ptr':      # base object, offset form
            ob, of = f[1], f[2]
            ep = h.mem[ob].ep if isinstance(ob, str) and ob in h.mem and h.mem[ob].kind == 'seq' else 0
            if f[3] == 'stale': ep = -1
            return Ptr(ob, c.lform(of, k), ep)
        if t == 'elem':
            return Ptr(Elem(f[1], norm(bv(c.lform(f[2], k).expr(), 64))), 0)
        if t == 'opt':
            return MaybeNull(f[2], Ptr(Elem(f[1], f[3]), 0))
        if t == 'optc':
            a, i = f[2](k)
            return MaybeNull(norm(a), Ptr(Elem(f[1], norm(i)), 0))
        if t == 'cand': return norm(f[1](k))
        raise Unsupported('form')

    def lform(c, of, k):
        if of[0] == 'free': return lin(of[1]) if len(of) == 2 else lin(of[1]).scale(of[2]).add(Lin(of[3]))
        if of[0] == 'aff': return of[1].add(mul_lin(of[2], k))
        if of[0] == 'cand':
            x = of[1](k)
            return x if isinstance(x, Lin) else lin(norm(x))

    # --- discovery -------------------------------------------------------------------------------------------------------------------
    def new_free(c, cell, vals):
        """form for a newly discovered modified cell; vals: the entry value and the values seen"""
        e = cell.get(c.st)
        vs = [e] + vals
        if e is POISON: return ('poison',)
        if all(isinstance(v, Ptr) and v.o is None and v.off.const() for v in vs if isinstance(v, Ptr)) and any(isinstance(v, int) or is_sym(v) for v in vs): pass
        if any(isinstance(v, (Ptr, MaybeNull)) for v in vs):
            if any(v is POISON for v in vs): return ('poison',)
            es = [v for v in vs if isinstance(v, Ptr) and isinstance(v.o, Elem) and v.off.const() and v.off.c == 0]
            if len(es) == len(vs) and len({v.o.fam for v in es}) == 1: return ('elem', es[0].o.fam, ('free', fresh('idx', 64)))
            nn = [v for v in vs if not (isinstance(v, Ptr) and v.o is None) and v != 0]
            nf = {(v.p if isinstance(v, MaybeNull) else v).o.fam for v in nn if isinstance(v, MaybeNull) or (isinstance(v, Ptr) and isinstance(v.o, Elem))}
            if nn and len(nf) == 1 and all(isinstance(v, MaybeNull) or (isinstance(v, Ptr) and isinstance(v.o, Elem)) for v in nn):
                return ('opt', nf.pop(), fresh('null', 0), fresh('idx', 64))
            if all(isinstance(v, Ptr) and not isinstance(v.o, Elem) for v in vs) and len({v.o for v in vs}) == 1 and e.o is not None:
                gs = c.st.mem[e.o].gs if e.o in c.st.mem and c.st.mem[e.o].kind == 'seq' else 1
                if e.o in c.st.mem and c.st.mem[e.o].kind == 'seq' and c.st.mem[e.o].fixed and c.st.mem[e.o].fixed is not True: gs = c.st.mem[e.o].fixed       # array of structures
                return ('ptr', e.o, ('free', fresh('off', 64), gs, e.off.c % gs), c.stale(cell, vs))
            return ('poison',)
        if any(not (isinstance(v, int) or is_sym(v)) for v in vs): return ('poison',)
        if is_sym(e) and z3.is_bool(e) or any(is_sym(v) and z3.is_bool(v) for v in vs): return ('free', fresh('v', 0))
        return ('free', fresh('v', cell.bits()))

    def stale(c, cell, vs):
        return 'ok'

    def diff(c, h, back):
        """newly modified cells, sequences and messy objects"""
        new = {}; nseq = set(); mess = set()
        for b in back:
            for oid, o in h.mem.items():
                x = b.mem.get(oid)
                if x is None or x is o: continue
                if o.kind == 'seq':
                    if x.content is not o.content and oid not in c.seqs: nseq.add(oid)
                    if not same(x.n, o.n) and (oid, 0, None) not in c.cells: new.setdefault((oid, 0, None), []).append(x.n)
                    continue
                if oid in c.mess: continue
                ks = set(o.c) | set(x.c)
                ok = x.base == o.base or x.base is o.base
                for off in ks:
                    p = o.c.get(off); q = x.c.get(off)
                    if p is None or q is None or p[0] != q[0]:
                        if q is not None and p is None and not o.over(off, q[0]) and o.base in ('undef', 'zero'):
                            # first write of a local
                            new.setdefault((oid, off, q[0]), []).append(q[1]); continue
                        ok = False; break
                    if (oid, off, p[0]) in c.cells: continue
                    if not same_ep(p[1], q[1], o, x, h, b): new.setdefault((oid, off, p[0]), []).append(q[1])
                if not ok: mess.add(oid)
        for oid in mess:
            for kk in [kk for kk in new if kk[0] == oid]: del new[kk]
        return new, nseq, mess

    def discover(c):
        for r in range(8):
            h = c.header()
            back, rest = c.iterate(h.clone(), False)
            if not back:
                c.back0 = []; return
            new, nseq, mess = c.diff(h, back)
            if not new and not nseq and not mess: c.back0 = back; c.h0 = h; return
            for oid in mess:
                c.mess.add(oid)
                for kk in [kk for kk in c.cells if kk[0] == oid]: del c.cells[kk]
            for oid in nseq: c.seqs[oid] = SeqForm(c, oid)
            for kk, vals in new.items():
                cell = Cell(*kk); cell.form = c.new_free(cell, vals); c.cells[kk] = cell
            # values of a kind that a form does not cover
            for cell in c.cells.values(): c.widen(cell, back)
        raise Unsupported('modified state of a loop does not settle')

    def widen(c, cell, back):
        f = cell.form
        if f[0] == 'poison': return
        for b in back:
            v = cell.get(b)
            if f[0] in ('free',) and not (isinstance(v, int) or is_sym(v)): cell.form = ('poison',); return
            if f[0] == 'ptr' and not (isinstance(v, Ptr) and v.o == f[1]): cell.form = ('poison',); return
            if f[0] == 'elem' and not (isinstance(v, Ptr) and isinstance(v.o, Elem) and v.o.fam == f[1]): cell.form = ('poison',); return

    # --- forms -----------------------------------------------------------------------------------------------------------------------
    def inner(c, v):
        """v depends on something that changes during the loop"""
        bad = c.changing
        for n in syms(v):
            if n in bad: return True
            i = n.rfind('!')
            if i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > c.mark: return True
        return False

    def infer_affine(c):
        """cells that change by the same amount in every iteration"""
        c.changing = set()
        for cell in c.cells.values():
            f = cell.form
            if f[0] == 'free': c.changing |= set(syms(f[1]))
            elif f[0] == 'ptr' and f[2][0] == 'free': c.changing |= set(syms(f[2][1]))
            elif f[0] == 'elem' and f[2][0] == 'free': c.changing |= set(syms(f[2][1]))
            elif f[0] == 'opt': c.changing |= {f[2].decl().name(), f[3].decl().name()}
        for q in c.seqs.values(): c.changing |= q.names()
        c.changing.add(c.k.decl().name())
        ch = False
        h, back = c.h0, c.back0
        for cell in c.cells.values():
            f = cell.form
            if c.ex.o.get('noaffine') and c.ex.o['noaffine'](c, cell): continue
            if f[0] == 'free' and z3.is_bool(f[1]):
                # unchanged after all, once the other cells are known
                if all(same(cell.get(b), f[1]) for b in back): cell.form = ('cand', lambda k, e=cell.get(c.st): e, 'unchanged'); ch = True
            elif f[0] == 'free':
                ds = [norm(bv(cell.get(b), cell.bits()) - f[1]) if not (is_sym(cell.get(b)) and z3.is_bool(cell.get(b))) else None for b in back]
                if ds[0] is None or any(d is None or not same(d, ds[0]) for d in ds) or c.inner(ds[0]):
                    if cell.bits() == 64 and c.delayed(cell, [lin(cell.get(b)) if ds[0] is not None else None for b in back], lin(cell.get(c.st))): ch = True
                    continue
                cell.form = ('aff', cell.get(c.st), ds[0]); ch = True
            elif f[0] in ('ptr', 'elem') and f[2][0] == 'free':
                ds = []
                for b in back:
                    v = cell.get(b)
                    of = v.off if f[0] == 'ptr' else lin(v.o.idx)
                    ds.append(of.add(c.lform(f[2], None), -1))
                e = cell.get(c.st)
                if any(not same_lin(d, ds[0]) for d in ds) or c.inner(ds[0]):
                    bs = [cell.get(b) for b in back]
                    if c.delayed(cell, [v.off if f[0] == 'ptr' else lin(v.o.idx) for v in bs], e.off if f[0] == 'ptr' else lin(e.o.idx)): ch = True
                    continue
                cell.form = f[:2] + (('aff', e.off if f[0] == 'ptr' else lin(e.o.idx), ds[0]),) + f[3:]; ch = True
        return ch

    def delayed(c, cell, vs, e):
        """a cell that takes over a value of the iteration just done: v(k) depends on k alone, and v(-1) is the entry value"""
        v = vs[0]; kid = c.k.get_id(); kn = c.k.decl().name()
        if v is None or any(x is None or not same_lin(x, v) for x in vs) or kid not in v.t: return False
        q = v.t[kid][1]
        a = Lin(v.c - q, {i: x for i, x in v.t.items() if i != kid})
        if kn in syms(a): return False
        ch = c.changing - {kn}
        for n in syms(a):
            if n in ch: return False
            i = n.rfind('!')
            if i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > c.mark: return False
        if not same_lin(a, e): return False
        f = cell.form
        if f[0] == 'free': cell.form = ('aff', norm(bv(a.expr(), 64)), q & M64)
        else: cell.form = f[:2] + (('aff', a, Lin(q)),) + f[3:]
        return True

    def run(c):
        ex = c.ex; st = c.st; t0 = time.time()
        c.mark = _mem._fresh[0]
        c.discover()
        if not c.back0:
            # no second arrival at the header: a single pass
            back, rest = c.iterate(c.header(), True)
            for x in rest: x.fr[-1].unroll = {a: b for a, b in x.fr[-1].unroll.items() if a != c.key} if x.fr else {}
            return rest
        for r in range(4):
            ch = c.infer_affine()
            if not ch and r: break
            c.mark = max(c.mark, 0)
            c.h0 = c.header(); c.back0, _ = c.iterate(c.h0.clone(), False)
            for q in c.seqs.values(): ch |= q.infer()
            if not ch: break
            c.h0 = c.header(); c.back0, _ = c.iterate(c.h0.clone(), False)
        # proposals of the specification
        l = L(); l.ex = ex; l.st = st; l.fn = ex.dem(c.key[0]); l.cells = c.cells; l.cut = c; l.k = c.k; l.seqs = c.seqs; l.depth = c.depth
        l.forms = []; l.contents = []; l.invs = []; l.measures = []; l.bounds = []; l.axioms = []; l.opts = []
        for hook in ex.o.get('loops', ()): hook(l)
        # instances at k of definitions and lemmas of the specification
        c.axioms = list(l.axioms)
        for a in c.axioms: c.st.assume(a(z3.BitVecVal(0, 64)))
        c.propose(l)
        cands = c.predicates(l)
        # entry
        zero = 0
        live = []
        for nm, p, R in cands:
            try: v = p(st, zero)
            except (Unsupported, KeyError, AttributeError, TypeError): continue
            if v is None: continue
            if ex.holds(st, v) is True: live.append((nm, p, R))
        rounds = 0
        while True:
            rounds += 1
            h = c.header()
            ok = True; good = []
            for nm, p, R in live:
                v = None
                try: v = p(h, c.k)
                except (Unsupported, KeyError, AttributeError, TypeError): pass
                if v is None: continue
                good.append((nm, p, R))
                try: h.assume(v)
                except Exception: raise Unsupported('contradictory loop invariant ' + nm)
            live = good
            h1 = h.clone()
            back, rest = c.iterate(h.clone(), False)
            drop = False
            k1 = norm(c.k + 1)
            # forms
            for cell in c.cells.values():
                if not c.form_kept(cell, back, k1, h): drop = True
            first = ex.o.get('forms_first') and rounds < 30         # contents are judged once the forms stand, and invariants once the contents do
            if drop and first: continue
            for q in c.seqs.values():
                if not q.kept(back, k1, h): drop = True
            if drop and first: continue
            keep = []
            for nm, p, R in live:
                good = True
                for b in back:
                    try: v = p(b, k1)
                    except (Unsupported, KeyError, AttributeError, TypeError): v = None
                    if R is not None and v is not None: v = z3.ULT(c.k, bv(R, 64))
                    if v is None or ex.holds(b, v) is not True: good = False; c.log.append('dropped ' + nm); break
                if good: keep.append((nm, p, R))
            if len(keep) != len(live): drop = True
            live = keep
            if not drop and not c.unchanged(back): break
            if rounds > 40: raise Unsupported('loop invariants do not settle')
        # the invariants hold; now the obligations of the body, and the states that leave
        term = [nm for nm, p, R in live if R is not None]
        if not term:
            for nm, m in l.measures:
                if all(ex.holds(b, z3.ULT(bv(m(b), 64), bv(m(h1), 64))) is True for b in back): term.append(nm)
        nfree = sum(1 for x in c.cells.values() if x.form[0] == 'free' or (x.form[0] in ('ptr', 'elem') and x.form[2][0] == 'free'))
        if ex.rec:
            ex.obs.append(Ob(ex.label + '/loop-invariant-preserved ' + ex.dem(c.key[0])[:80], 'ok', 'z3'))
            if term or not back: ex.obs.append(Ob(ex.label + '/loop-terminates ' + ex.dem(c.key[0])[:80], 'ok', 'z3'))
            elif ex.o.get('termination', True): ex.obs.append(Ob(ex.label + '/loop-terminates ' + ex.dem(c.key[0])[:80], 'unknown', 'z3', 'no variant found'))
            ex.loopinfo.append({'function': ex.dem(c.key[0])[:100], 'header': c.hdr, 'invariants': [nm for nm, p, R in live][:30], 'forms': [('%s: %s' % (x, show(x.form)))[:160] for x in c.cells.values() if x.form[0] != 'poison'][:20],
                                'contents': [q.show() for q in c.seqs.values()], 'variant': term[:2], 'dropped': c.log[:12], 'seconds': round(time.time() - t0, 2)})
        c.final = h1
        back, rest = c.iterate(h1, True)
        for x in rest: x.abs = True
        return rest

    def unchanged(c, back):
        """cells that, under the invariants, no iteration changes after all"""
        new = False
        for cell in c.cells.values():
            f = cell.form
            if f[0] != 'free' or cell.key() in c.tried or not all(same(cell.get(b), f[1]) for b in back): continue
            c.tried.add(cell.key()); cell.form = ('cand', lambda k, e=cell.get(c.st): e, 'unchanged'); new = True
        return new

    def propose(c, l):
        """closed forms for cells without one, as the specification proposes"""
        for cell in c.cells.values():
            f = cell.form; e = cell.get(c.st)
            cs = []
            if f[0] == 'free' and not z3.is_bool(f[1]):
                for nm, g in l.forms:
                    if isinstance(g(z3.BitVecVal(0, 64)), Lin): continue
                    def gg(k, g=g, w=cell.bits()):
                        x = bv(g(k), 64) if not isinstance(g(k), int) else z3.BitVecVal(g(k), 64)
                        return x if w == 64 else z3.Extract(w - 1, 0, x)
                    if cell.bits() > 64: continue
                    if c.ex.holds(c.st, norm2(bv(e, cell.bits()) == gg(z3.BitVecVal(0, 64)))) is True: cs.append(('cand', gg, nm))
            elif f[0] == 'ptr' and f[2][0] == 'free':
                for nm, g in l.forms:
                    v = g(z3.BitVecVal(0, 64)); x = g(c.k); ob = c.st.mem.get(f[1])
                    if ob is not None and ob.kind == 'seq' and ob.gs > 1 and (x if isinstance(x, Lin) else lin(norm(x))).add(Lin(e.off.c % ob.gs), -1).div(ob.gs) is None: continue
                    if c.ex.holds(c.st, norm2(bv(e.off.expr(), 64) == bv(v.expr() if isinstance(v, Lin) else v, 64))) is True: cs.append(('ptr', f[1], ('cand', g, nm), f[3]))
            elif f[0] == 'elem' and f[2][0] == 'free':
                for nm, g in l.forms:
                    if isinstance(g(z3.BitVecVal(0, 64)), Lin): continue
                    if c.ex.holds(c.st, norm2(bv(e.o.idx, 64) == bv(g(z3.BitVecVal(0, 64)), 64))) is True: cs.append(('elem', f[1], ('cand', g, nm)))
            elif f[0] == 'opt':
                for nm, g in l.opts:
                    q = opt_eq(e, *g(z3.BitVecVal(0, 64)))
                    if q is not None and c.ex.holds(c.st, q) is True: cs.append(('optc', f[1], g, nm))
            if cs:
                cell.cands = cs + [f]; cell.ci = 0; cell.form = cs[0]
        for q in c.seqs.values(): q.propose(l)

    def form_kept(c, cell, back, k1, h):
        f = cell.form
        if f[0] in ('free', 'poison', 'opt'): return True
        if f[0] in ('ptr', 'elem') and f[2][0] == 'free':
            if len(f[2]) > 2 and f[2][2] > 1:
                for v in [cell.get(c.st)] + [cell.get(b) for b in back]:
                    if not isinstance(v, Ptr) or v.off.add(Lin(f[2][3]), -1).div(f[2][2]) is None:
                        cell.form = ('ptr', f[1], ('free', fresh('off', 64)), f[3]); return False
            return True
        for b in back:
            v = cell.get(b); w = c.value(cell, k1, b)
            if f[0] == 'ptr':
                ok = isinstance(v, Ptr) and v.o == w.o
                e = ok and norm2(bv(v.off.expr(), 64) == bv(w.off.expr(), 64))
                if ok and v.ep != w.ep and b.mem[w.o].kind == 'seq' and not b.mem[w.o].fixed:
                    # an iterator that was not renewed when the buffer grew
                    if f[3] != 'stale': cell.form = f[:3] + ('stale',); return False
            elif f[0] == 'optc': e = opt_eq(v, *f[2](k1)); ok = e is not None
            else: e = ueq(v, w, cell.bits()); ok = e is not None
            if not ok or c.ex.holds(b, e) is not True:
                c.log.append('form of %s: %s' % (cell, show(f)))
                if cell.cands and cell.ci + 1 < len(cell.cands): cell.ci += 1; cell.form = cell.cands[cell.ci]
                elif f[0] == 'ptr':
                    gs = c.st.mem[f[1]].gs if f[1] in c.st.mem and c.st.mem[f[1]].kind == 'seq' else 1
                    cell.form = ('ptr', f[1], ('free', fresh('off', 64), gs, cell.get(c.st).off.c % gs), f[3])
                elif f[0] == 'elem': cell.form = ('elem', f[1], ('free', fresh('idx', 64)))
                elif f[0] == 'optc': cell.form = ('opt', f[1], fresh('null', 0), fresh('idx', 64))
                else: cell.form = ('free', fresh('v', 0 if is_sym(w) and z3.is_bool(w) else cell.bits()))
                return False
        return True

    # --- invariants ------------------------------------------------------------------------------------------------------------------
    def predicates(c, l):
        """(name, predicate(state, k), bound or None)"""
        out = []; seen = set()
        Rs = []
        kn = c.k.decl().name()
        h = c.header()
        back, rest = c.iterate(h.clone(), False)
        n = len(h.pc)
        hs = {x.get_id() for x in h.pc}
        for b in back + rest:
            for a in b.pc:
                if a.get_id() in hs: continue
                for R in atom_bounds(a, c.k):
                    s = str(R)
                    if s not in seen: seen.add(s); Rs.append(R)
        for nm, R in l.bounds:
            s = str(R)
            if s not in seen: seen.add(s); Rs.append(R)
        for R in Rs:
            if is_sym(R) and kn in syms(R): continue
            if is_sym(R) and c.inner2(R): continue
            out.append(('k <= %s' % str(R)[:80].replace('\n', ' '), lambda st, k, R=R: norm2(z3.ULE(bv(k, 64), bv(R, 64))), R))
        for nm, p in l.invs: out.append((nm, p, None))
        # what every completed iteration established, at the constants the specification reasons about
        ds = []
        for b in back:
            at = [a for a in b.pc if a.get_id() not in hs and not c.inner2(a) and kn in syms(a)]
            ds.append(z3.And(*at) if at else None)
        if ds and all(d is not None for d in ds) and len(ds) <= 40:
            d = z3.Or(*ds) if len(ds) > 1 else ds[0]
            for P in c.ex.o.get('skolems', ()):
                x = z3.BitVec(P, 64) if isinstance(P, str) else P
                f = norm2(z3.substitute(d, (c.k, x)))
                out.append(('history at %s' % P, lambda st, k, f=f, x=x: norm2(z3.Implies(z3.ULT(x, bv(k, 64)), f)), None))
        return out

    def inner2(c, v):
        bad = set()
        for cell in c.cells.values():
            f = cell.form
            if f[0] == 'free': bad |= set(syms(f[1]))
            elif f[0] in ('ptr', 'elem') and f[2][0] == 'free': bad |= set(syms(f[2][1]))
        for q in c.seqs.values(): bad |= q.names()
        for n in syms(v):
            if n in bad: return True
            i = n.rfind('!')
            if i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > c.mark0: return True
        return False

    @property
    def mark0(c): return c.mark


def opt_eq(v, null, idx):
    """the pointer v is null exactly when null holds, and otherwise the element idx"""
    if isinstance(v, int) and v == 0 or isinstance(v, Ptr) and v.o is None and v.off.const() and v.off.c == 0: return norm2(null)
    if isinstance(v, Ptr) and isinstance(v.o, Elem): return norm2(z3.And(z3.Not(null), bv(v.o.idx, 64) == idx))
    if isinstance(v, MaybeNull):
        a = v.cond if is_sym(v.cond) else z3.BoolVal(v.cond)
        return norm2(z3.And(a == null, z3.Or(null, bv(v.p.o.idx, 64) == idx)))
    return None


def show(f):
    if f[0] == 'optc': return 'spec %s' % f[3]
    if f[0] == 'aff': return '%s + k*%s' % (str(f[1])[:50], str(f[2])[:40])
    if f[0] == 'cand': return 'spec %s' % (f[2],)
    if f[0] in ('ptr', 'elem'):
        o = f[2]
        return '%s %s %s' % (f[0], f[1], 'free' if o[0] == 'free' else ('%s + k*%s' % (o[1], o[2]) if o[0] == 'aff' else 'spec ' + str(o[2])))
    return f[0]


def mul_lin(d, k):
    """d*k as Lin"""
    if d.const():
        if isinstance(k, int): return Lin(sg(d.c * k))
        return lin(k).scale(d.c)
    if isinstance(k, int): return d.scale(k)
    return lin(norm(bv(d.expr(), 64) * bv(k, 64)))


def aff(v0, d, k, w):
    """v0 + k*d at width w"""
    if w == 64:
        x = lin(v0).add(mul_lin(lin(d), k))
        return norm(bv(x.expr(), 64))
    if w < 64:
        def sx(x):
            if isinstance(x, int): return Lin(sg(x - (1 << w) if x >> (w - 1) else x))
            y = widen64(x)
            return lin(y)
        K = sx(v0).add(mul_lin(sx(d), k))
        K = norm(bv(K.expr(), 64))
        if isinstance(K, int): return K & ((1 << w) - 1)
        e = norm(z3.Extract(w - 1, 0, K))
        if is_sym(e): WIDE[e.get_id()] = (e, K)
        return e
    raise Unsupported('wide counter')


def atom_bounds(a, k):
    """possible bounds of k from a comparison"""
    out = []
    kid = k.get_id()

    def lin_opt(e):
        """Lin of e, looking through extensions of counters"""
        l = lin(e) if is_sym(e) and e.size() == 64 else None
        if l is None:
            if is_sym(e) and e.size() < 64: l = lin(widen64(e))
            else: return None
        r = Lin(l.c)
        for i, (x, q) in l.t.items():
            kd = x.decl().kind()
            if kd in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT): r = r.add(lin(widen64(x.arg(0))).scale(q))
            elif kd == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0: r = r.add(lin(widen64(x.arg(1))).scale(q))
            else: r = r.add(Lin(0, {i: (x, q)}))
        return r

    def cmp(x, y):
        if x.sort().kind() != z3.Z3_BV_SORT or x.size() > 64: return
        lx, ly = lin_opt(x), lin_opt(y)
        if lx is None or ly is None: return
        d = ly.add(lx, -1)          # y - x
        if kid not in d.t:
            # k inside a product with a loop-invariant factor
            return
        q = d.t[kid][1]
        C = Lin(d.c, {i: v for i, v in d.t.items() if i != kid})
        if q > 0: C = C.scale(-1); q = -q
        q = -q                      # C - q*k
        e = C.div(q)
        if e is not None: out.append(norm(bv(e.expr(), 64))); out.append(norm(bv(e.expr(), 64) + 1))
        else:
            x = bv(C.expr(), 64)
            out.append(norm(z3.UDiv(x, z3.BitVecVal(q, 64)))); out.append(norm(z3.UDiv(x + (q - 1), z3.BitVecVal(q, 64))))
    st = [a]
    while st:
        x = st.pop()
        kd = x.decl().kind()
        if kd in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE): st += [y for y in x.children() if z3.is_bool(y)]
        elif kd == z3.Z3_OP_EQ and not z3.is_bool(x.arg(0)) or kd in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT): cmp(x.arg(0), x.arg(1))
    return out


def same_ep(p, q, o, x, h, b):
    """equality of cell values up to the epoch of a buffer that both pointers are current for"""
    if isinstance(p, Ptr) and isinstance(q, Ptr):
        if not sameobj(p.o, q.o) or not same_lin(p.off, q.off): return False
        if p.ep == q.ep: return True
        m, n = h.mem.get(p.o), b.mem.get(q.o)
        return m is not None and n is not None and m.kind == 'seq' and p.ep == m.ep and q.ep == n.ep
    return same(p, q)


class SeqForm:
    """content of a modified sequence after k iterations: ('opaque', function), ('app', n0, values), ('cand', g)"""

    def __init__(q, c, oid):
        q.c = c; q.oid = oid; q.form = None; q.cands = None; q.ci = 0; q.f = None; q.tmpl = None
        o = c.st.mem[oid]; q.gs = o.gs; q.entry = o.content; q.n0 = o.n
        q.opaque()

    def opaque(q):
        """an unknown function of the index (and of the cut)"""
        _mem._fresh[0] += 1
        q.name = 'content!%d' % _mem._fresh[0]
        q.form = ('opaque',)
        q._fn = {}

    def names(q): return {x.name() for x in q._fn.values()} | {q.name}

    def fn(q, w, tag=''):
        if (w, tag) not in q._fn:
            q._fn[(w, tag)] = z3.Function(q.name + tag, z3.BitVecSort(64), z3.BitVecSort(w) if w else z3.BoolSort())
        return q._fn[(w, tag)]

    def sample(q):
        """shape of the elements"""
        if q.tmpl is not None: return q.tmpl
        if not (isinstance(q.n0, int) and q.n0 == 0):
            v = q.entry.get(z3.BitVec('sample', 64))
            return v
        return None

    def generic(q, i):
        t = q.sample()
        if t is None: return norm(q.fn(8 * q.gs)(bv(i, 64)))
        return q.like(t, i, '')

    def like(q, t, i, tag):
        if isinstance(t, int): return norm(q.fn(8 * q.gs if not tag else q.tw[tag], tag)(bv(i, 64)))
        if is_sym(t): return norm(q.fn(0 if z3.is_bool(t) else t.size(), tag)(bv(i, 64)))
        if isinstance(t, SV):
            r = {}
            for off, (n, x) in t.c.items():
                if isinstance(x, Ptr): r[off] = (n, x)
                elif isinstance(x, int): r[off] = (n, norm(q.fn(8 * n, '%s.%d' % (tag, off))(bv(i, 64))))
                elif x is POISON: r[off] = (n, POISON)
                else: r[off] = (n, q.like(x, i, '%s.%d' % (tag, off)))
            return SV(r, t.gap)
        if isinstance(t, Ptr) and isinstance(t.o, Elem): return Ptr(Elem(t.o.fam, norm(q.fn(64, tag + '.e')(bv(i, 64)))), 0)
        raise Unsupported('element shape')

    def content(q, c):
        if q.form[0] == 'opaque': return CFn(q.generic)
        if q.form[0] == 'app': return CApp(q.entry, q.n0, q.form[1], c.k, 0 if q.isbool() else 8 * q.gs)
        if q.form[0] == 'cand': return CFn(lambda i: norm_v(q.form[1](i, c.k)))

    def isbool(q):
        return any(is_sym(v) and z3.is_bool(v) for v in (q.form[1] if q.form[0] == 'app' else []))

    def appended(q, b, h):
        """[values] when b's content is the header content with values appended at the end, in order"""
        o = b.mem[q.oid]; x = o.content; segs = []
        hc = h.mem[q.oid].content; n = h.mem[q.oid].n
        while x is not hc:
            if not isinstance(x, CSeg): return None
            segs.append(x); x = x.base
        pos = 0; vals = {}
        for g in reversed(segs):
            d = d64(g.start, n)
            if d is None or not isinstance(g.n, int) or d < 0 or d + g.n > 4096: return None
            for j in range(g.n): vals[d + j] = g.f(j)
        if d64(o.n, n) != len(vals) or set(vals) != set(range(len(vals))): return None
        return [vals[j] for j in range(len(vals))]

    def infer(q):
        """app form from the last run"""
        c = q.c
        if q.form[0] != 'opaque' or not c.back0: return False
        al = [q.appended(b, c.h0) for b in c.back0]
        if any(a is None for a in al):
            return False
        if q.tmpl is None and al[0] and isinstance(q.n0, int) and q.n0 == 0:
            q.tmpl = al[0][0]; q._fn = {}
            q.retry = True
            if not (is_sym(al[0][0]) or isinstance(al[0][0], int)): pass
        ch = c.changing - {c.k.decl().name()}
        for a in al:
            if len(a) != len(al[0]) or any(not same(x, y) for x, y in zip(a, al[0])): return False
            for v in a:
                for n in syms(v):
                    if n in ch: return False
                    if c.k.decl().name() == n: continue
                    i = n.rfind('!')
                    if i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > c.mark: return False
        if not al[0]: return False
        q.form = ('app', al[0])
        return True

    def propose(q, l):
        cs = []
        if q.form[0] == 'app': cs.append(q.form)
        j = fresh('j', 64)
        for nm, g in l.contents:
            if getattr(g, 'entry', False): g = lambda j, k, g=g, e=q.entry: g(j, k, e.get(j))
            try:
                st = l.st.clone(); st.assume(z3.ULT(j, bv(q.n0, 64)))
            except Exception:
                cs.append(('cand', g, nm)); continue
            try:
                v = g(j, z3.BitVecVal(0, 64))
                if v is None: continue
                for fct in seqfacts(q.c.ex):
                    for z in fct(j, z3.BitVecVal(0, 64)): st.assume(z)
                e = ueq(q.entry.get(j), norm_v(v), 8 * q.gs)
            except (z3.Z3Exception, Unsupported, TypeError): continue
            if e is None: continue
            if q.c.ex.holds(st, e) is True: cs.append(('cand', g, nm))
        if cs:
            q.cands = cs + [('opaque',)]; q.ci = 0; q.form = cs[0]

    def kept(q, back, k1, h):
        f = q.form
        if f[0] == 'opaque': return True
        for b in back:
            ok = True
            if f[0] == 'app':
                a = q.appended(b, h)
                if a is None or len(a) != len(f[1]): ok = False
                else:
                    for x, y in zip(a, f[1]):
                        e = ueq(x, y, 8 * q.gs)
                        if e is None or q.c.ex.holds(b, e) is not True: ok = False; break
            else:
                ok = q.cand_kept(b, f[1], k1, h)
            if not ok:
                q.c.log.append('content of %s: %s' % (q.oid, f[0] if f[0] == 'app' else f[2]))
                if q.cands and q.ci + 1 < len(q.cands):
                    q.ci += 1; q.form = q.cands[q.ci]
                else: q.form = ('opaque',)
                return False
        return True

    def cand_kept(q, b, g, k1, h):
        """the content after the iteration is the candidate at k+1: the part the iteration wrote, position by position, then the rest"""
        o = b.mem[q.oid]; hc = h.mem[q.oid].content; segs = []; x = o.content
        while x is not hc and isinstance(x, CSeg): segs.append(x); x = x.base
        ex = q.c.ex

        def at(j, v, extra, rest=False):
            st = b.clone()
            try:
                for z in extra: st.assume(z)
                st.assume(norm2(z3.ULT(bv(j, 64), bv(o.n, 64))))
                w = norm_v(g(j, k1))
                e = ueq(v, w, 8 * q.gs)
                if e is None: return False
                if rest and seqfacts(ex) and ex.check(st, z3.Not(e), to=1500) == 'unsat': return True
                for fct in seqfacts(ex):
                    for z in fct(j, q.c.k): st.assume(z)
                return ex.holds(st, e) is True
            except PathEnd_(): return True
            except Unsupported: return False
        if x is not hc:
            j = fresh('j', 64)
            try: v = o.content.get(j)
            except Unsupported: return False
            return at(j, v, [])
        outside = []
        for s in segs:
            # positions of this segment that no later segment covers
            if isinstance(s.n, int) and s.n <= 64:
                for d in range(s.n):
                    j = add64(s.start, d)
                    if not at(j, s.f(d), [z3.Not(c) for c in (ins(t, j) for t in outside) if not z3.is_false(c)]): return False
            else:
                d = fresh('d', 64); j = add64(s.start, d)
                if not at(j, s.f(d), [z3.ULT(d, bv(s.n, 64))] + [z3.Not(c) for c in (ins(t, j) for t in outside) if not z3.is_false(c)]): return False
            outside.append(s)
        j = fresh('j', 64)
        return at(j, hc.get(j), [z3.Not(ins(t, j)) for t in segs], True)

    def show(q):
        return '%s: %s' % (q.oid, 'appended %d per iteration' % len(q.form[1]) if q.form[0] == 'app' else 'spec ' + q.form[2] if q.form[0] == 'cand' else 'opaque')


def norm_v(v):
    return norm(v) if is_sym(v) else v


def seqfacts(ex):
    f = ex.o.get('seqfacts')
    return [f(ex)] if f else []


def ins(t, j):
    c = ult(sub64(j, t.start), t.n)
    return z3.BoolVal(bool(c)) if isinstance(c, (bool, int)) else c


def PathEnd_():
    from .ex import PathEnd
    return PathEnd
