"""Linear bit-vector goals over the integers: every sum gets its wrap-around as an integer unknown, so the translation is exact for
linear terms; anything else becomes an arbitrary value (so only 'unsat' is used)."""
import z3


class LIA:
    def __init__(s):
        s.memo = {}; s.side = {}; s.keep = []; s.n = 0
        s.solver = z3.SolverFor('QF_LIA'); s.stack = []

    def sync(s, pc):
        k = 0; n = min(len(s.stack), len(pc))
        while k < n and s.stack[k] is pc[k]: k += 1
        if len(s.stack) > k: s.solver.pop(len(s.stack) - k); del s.stack[k:]
        for c in pc[k:]:
            s.solver.push(); f, sd = s.formula(c); s.solver.add(f, *sd); s.stack.append(c)

    def unsat(s, pc, extra, ms=400):
        try:
            s.sync(pc)
            f, sd = s.formula(extra)
            s.solver.push(); s.solver.set('timeout', ms); s.solver.add(f, *sd)
            r = s.solver.check(); s.solver.pop()
            return r == z3.unsat
        except (z3.Z3Exception, RecursionError): 
            s.solver = z3.SolverFor('QF_LIA'); s.stack = []
            return False

    def new(s, sort='i'):
        s.n += 1
        return z3.Int('i!%d' % s.n) if sort == 'i' else z3.Bool('b!%d' % s.n)

    def formula(s, e):
        """(formula, side conditions)"""
        acc = {}
        f = s.b(e, acc)
        return f, list(acc.values())

    def get(s, e, acc, make):
        i = e.get_id()
        h = s.memo.get(i)
        if h is None:
            a = {}
            v = make(a)
            s.keep.append(e); h = s.memo[i] = (v, a)
        acc.update(h[1])
        return h[0]

    def b(s, e, acc): return s.get(e, acc, lambda a: s.b_(e, a))

    def b_(s, e, a):
        k = e.decl().kind(); c = e.children()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE: return e
        if k == z3.Z3_OP_NOT: return z3.Not(s.b(c[0], a))
        if k == z3.Z3_OP_AND: return z3.And(*[s.b(x, a) for x in c])
        if k == z3.Z3_OP_OR: return z3.Or(*[s.b(x, a) for x in c])
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.b(c[0], a), s.b(c[1], a))
        if k == z3.Z3_OP_EQ:
            if z3.is_bool(c[0]): return s.b(c[0], a) == s.b(c[1], a)
            if z3.is_bv(c[0]) and c[0].size() <= 64: return s.v(c[0], a) == s.v(c[1], a)
        if k == z3.Z3_OP_ITE: return z3.If(s.b(c[0], a), s.b(c[1], a), s.b(c[2], a))
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and c[0].size() <= 64:
            x, y = s.v(c[0], a), s.v(c[1], a)
            return {z3.Z3_OP_ULEQ: x <= y, z3.Z3_OP_ULT: x < y, z3.Z3_OP_UGEQ: x >= y, z3.Z3_OP_UGT: x > y}[k]
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) and c[0].size() <= 64:
            w = c[0].size()
            x, y = [z3.If(z >= 2 ** (w - 1), z - 2 ** w, z) for z in (s.v(c[0], a), s.v(c[1], a))]
            return {z3.Z3_OP_SLEQ: x <= y, z3.Z3_OP_SLT: x < y, z3.Z3_OP_SGEQ: x >= y, z3.Z3_OP_SGT: x > y}[k]
        return s.new('b')

    def atom(s, e, a, w):
        v = s.new(); a[('r', v.get_id())] = z3.And(v >= 0, v < 2 ** w)
        return v

    def v(s, e, acc): return s.get(e, acc, lambda a: s.v_(e, a))

    def v_(s, e, a):
        w = e.size(); k = e.decl().kind(); c = e.children()
        if z3.is_bv_value(e): return z3.IntVal(e.as_long())
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or (k == z3.Z3_OP_BMUL and len(c) == 2 and (z3.is_bv_value(c[0]) or z3.is_bv_value(c[1]))):
            t = s.sum(e, 1, a)
            return s.wrap(t, w, a)
        if k == z3.Z3_OP_ZERO_EXT: return s.v(c[0], a)
        if k == z3.Z3_OP_CONCAT and z3.is_bv_value(c[0]) and c[0].as_long() == 0 and len(c) == 2: return s.v(c[1], a)
        if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0 and c[0].size() <= 64: return s.wrap(s.sum(c[0], 1, a), w, a)
        if k == z3.Z3_OP_ITE: return z3.If(s.b(c[0], a), s.v(c[1], a), s.v(c[2], a))
        return s.atom(e, a, w)

    def wrap(s, t, w, a):
        q = s.new(); r = t - q * (2 ** w)
        a[('w', q.get_id())] = z3.And(r >= 0, r < 2 ** w)
        return r

    def sum(s, e, m, a):
        w = e.size(); k = e.decl().kind(); c = e.children()
        def sg(x): return x - 2 ** w if x >= 2 ** (w - 1) else x
        if z3.is_bv_value(e): return z3.IntVal(m * sg(e.as_long()))
        if k == z3.Z3_OP_BADD: return z3.Sum([s.sum(x, m, a) for x in c])
        if k == z3.Z3_OP_BSUB: return z3.Sum([s.sum(c[0], m, a)] + [s.sum(x, -m, a) for x in c[1:]])
        if k == z3.Z3_OP_BNEG: return s.sum(c[0], -m, a)
        if k == z3.Z3_OP_BMUL and len(c) == 2:
            for x, y in ((0, 1), (1, 0)):
                if z3.is_bv_value(c[x]): return s.sum(c[y], m * sg(c[x].as_long()), a)
        return m * s.v(e, a)
