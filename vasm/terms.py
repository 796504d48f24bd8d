"""Canonical term algebra for 32-bit machine words.

A term is a polynomial over GF(2), bit by bit (algebraic normal form): a map  monomial -> mask,
where a monomial is a sorted tuple of (atom, shift) and contributes, at every bit i set in mask,
the product of bit (i+shift) of each atom.  Two terms denote the same bit function of their atoms
iff their maps are equal, so equality is syntactic.

Atoms are either uninterpreted symbols (an input word, garbage) or hash-consed sums modulo 2^32
of (term, coefficient) pairs plus a constant.  The rewriting steps used here are the lemmas checked
by lemmas.py with z3/cvc5 on every run.
"""
FULL = 0xffffffff


class Unsupported(Exception):
    """The verifier cannot express this; the obligation is undecided (never refuted)."""


class T:
    __slots__ = ('anf', 'id', 'h')

    def __repr__(self):
        return 't%d' % self.id


_terms = {}          # frozenset(anf.items()) -> T
_byid = []
_atoms = []          # atom id -> description
_atomkey = {}
MAXMONO = 400


def reset():
    _terms.clear(); _byid.clear(); _atoms.clear(); _atomkey.clear()
    _atomterm.clear()


def mk(anf):
    k = frozenset(anf.items())
    t = _terms.get(k)
    if t is None:
        t = T(); t.anf = anf; t.id = len(_byid); t.h = k
        _byid.append(t); _terms[k] = t
    return t


_atomterm = {}


def atom(desc):
    i = _atomkey.get(desc)
    if i is None:
        i = len(_atoms); _atoms.append(desc); _atomkey[desc] = i
    t = _atomterm.get(i)
    if t is None:
        t = mk({((i, 0),): FULL}); _atomterm[i] = t
    return t


def const(c):
    c &= FULL
    return mk({(): c} if c else {})


def is_const(t):
    a = t.anf
    if not a: return 0
    if len(a) == 1 and () in a: return a[()]
    return None


def pure_atom(t):
    if len(t.anf) == 1:
        (m, k), = t.anf.items()
        if k == FULL and len(m) == 1 and m[0][1] == 0: return m[0][0]
    return None


def xor(a, b):
    if not a.anf: return b
    if not b.anf: return a
    r = dict(a.anf)
    for m, k in b.anf.items():
        v = r.get(m, 0) ^ k
        if v: r[m] = v
        else: r.pop(m, None)
    return mk(r)


_andc = {}


def _mulmono(m, n):
    if not m: return n
    if not n: return m
    return tuple(sorted(set(m) | set(n)))


def and_(a, b):
    if a is b: return a
    if a.id > b.id: a, b = b, a
    key = (a.id, b.id, a, b)
    r = {}
    if len(a.anf) * len(b.anf) > MAXMONO: raise Unsupported('bit-level polynomial too large')
    for m, k in a.anf.items():
        for n, l in b.anf.items():
            v = k & l
            if v:
                p = _mulmono(m, n)
                w = r.get(p, 0) ^ v
                if w: r[p] = w
                else: r.pop(p, None)
    return mk(r)


def not_(a): return xor(a, const(FULL))
def or_(a, b): return xor(xor(a, b), and_(a, b))
def andn(a, b): return and_(not_(a), b)


def shift(t, s, mask=FULL):
    """s>0: logical right shift; s<0: left shift; then & mask."""
    r = {}
    for m, k in t.anf.items():
        v = ((k >> s) if s >= 0 else (k << -s)) & mask & FULL
        if v:
            r[tuple((a, x + s) for a, x in m)] = v
    return mk(r)


def shr(t, s): return shift(t, s) if s < 32 else const(0)
def shl(t, s): return shift(t, -s) if s < 32 else const(0)


def ror(t, s):
    s &= 31
    if s == 0: return t
    return xor(shr(t, s), shl(t, 32 - s))


def rol(t, s): return ror(t, (32 - s) & 31)


MERGE = False


def _sumparts(t):
    """-> (const, dict tid->coef)"""
    p = pure_atom(t)
    if p is not None and _atoms[p][0] == 'add':
        return _atoms[p][1], _atoms[p][3]
    c = is_const(t)
    if c is not None: return c, {}
    return 0, {t.id: 1}


_disj = {}


def disjoint(a, b):
    """a & b == 0 identically."""
    if not a.anf or not b.anf: return True
    if len(a.anf) * len(b.anf) > 64: return False
    return not and_(a, b).anf


def add(a, b, cb=1):
    """a + cb*b mod 2^32"""
    ca, da = _sumparts(a)
    cc, db = _sumparts(b)
    if cb == 1 and len(da) < len(db): da, db, ca, cc = db, da, cc, ca
    r = dict(da); c = (ca + cb * cc) & FULL
    for t, k in db.items():
        v = (r.get(t, 0) + cb * k) & FULL
        if v: r[t] = v
        else: r.pop(t, None)
    return _mksum(c, r, new=db if cb == 1 else None)


def _mksum(c, r, new=None):
    if new is not None and len(r) > 1:
        # x + y == x ^ y when x & y == 0: merge summands with provably disjoint bit supports
        work = [t for t in new if r.get(t) == 1 and len(_byid[t].anf) <= 8]
        while work:
            t = work.pop()
            if r.get(t) != 1: continue
            T1 = _byid[t]
            s1 = _support(T1)
            for u in list(r):
                if u == t or r[u] != 1: continue
                T2 = _byid[u]
                if len(T2.anf) > 8: continue
                if not (_support(T2) & s1): continue
                if pure_atom(T1) is not None and pure_atom(T2) is not None: continue
                if disjoint(T1, T2):
                    n = xor(T1, T2)
                    del r[t]; del r[u]
                    c2, d2 = _sumparts(n)
                    c = (c + c2) & FULL
                    for q, k in d2.items():
                        v = (r.get(q, 0) + k) & FULL
                        if v: r[q] = v
                        else: r.pop(q, None)
                        work.append(q)
                    break
    if not r: return const(c)
    if c == 0 and len(r) == 1:
        (t, k), = r.items()
        if k == 1: return _byid[t]
    key = ('add', c, frozenset(r.items()))
    i = _atomkey.get(key)
    if i is None:
        i = len(_atoms); _atoms.append(('add', c, None, r)); _atomkey[key] = i
    t = _atomterm.get(i)
    if t is None:
        t = mk({((i, 0),): FULL}); _atomterm[i] = t
    return t


_supc = {}


def _support(t):
    s = _supc.get(t)
    if s is None:
        s = frozenset(a for m in t.anf for a, _ in m); _supc[t] = s
    return s


def sub(a, b): return add(a, b, FULL)


def mulc(a, k):
    k &= FULL
    c, d = _sumparts(a)
    return _mksum((c * k) & FULL, {t: (v * k) & FULL for t, v in d.items() if (v * k) & FULL})


def ite_bits(cond_anf, a, b): return xor(and_(cond_anf, xor(a, b)), b)


# ---- evaluation (for counterexamples) -------------------------------------------------------
def evaluate(t, env, cache=None):
    """env: atom description -> int"""
    import sys
    sys.setrecursionlimit(1000000)
    if cache is None: cache = {}

    def ev_atom(i):
        key = ('a', i)
        v = cache.get(key)
        if v is None:
            d = _atoms[i]
            if d[0] == 'add':
                v = d[1]
                for t_, k in d[3].items(): v += k * ev(_byid[t_])
                v &= FULL
            else: v = env(d)
            cache[key] = v
        return v

    def ev(t_):
        v = cache.get(t_)
        if v is None:
            v = 0
            for m, k in t_.anf.items():
                x = k
                for a, s in m:
                    y = ev_atom(a)
                    x &= (y >> s) if s >= 0 else (y << -s)
                v ^= x
            v &= FULL
            cache[t_] = v
        return v

    # iterative warm-up in id order keeps recursion shallow
    return ev(t)


def leaf_atoms(t, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for m in x.anf:
            for a, _ in m:
                d = _atoms[a]
                if d[0] == 'add':
                    st.extend(_byid[q] for q in d[3])
                else: out.add(d)
    return out


# ---- SHA-256 as a spec function over terms ----------------------------------------------------
def _primes(n):
    ps, x = [], 2
    while len(ps) < n:
        if all(x % p for p in ps): ps.append(x)
        x += 1
    return ps


def _frac_root(p, r):
    # floor(frac(p^(1/r)) * 2^32), exactly
    lo, hi = 0, p << 33
    N = p << (32 * r)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** r <= N: lo = mid
        else: hi = mid - 1
    return lo & FULL


K = [_frac_root(p, 3) for p in _primes(64)]
H0 = [_frac_root(p, 2) for p in _primes(8)]


def S0(x): return xor(xor(ror(x, 2), ror(x, 13)), ror(x, 22))
def S1(x): return xor(xor(ror(x, 6), ror(x, 11)), ror(x, 25))
def s0(x): return xor(xor(ror(x, 7), ror(x, 18)), shr(x, 3))
def s1(x): return xor(xor(ror(x, 17), ror(x, 19)), shr(x, 10))
def ch(e, f, g): return xor(and_(e, f), andn(e, g))
def maj(a, b, c): return xor(xor(and_(a, b), and_(a, c)), and_(b, c))


def round_(st, wk):
    a, b, c, d, e, f, g, h = st
    t1 = add(add(add(h, S1(e)), ch(e, f, g)), wk)
    t2 = add(S0(a), maj(a, b, c))
    return [add(t1, t2), a, b, c, add(d, t1), e, f, g]


def compress(H, W16):
    W = list(W16)
    for t in range(16, 64):
        W.append(add(add(add(s1(W[t - 2]), W[t - 7]), s0(W[t - 15])), W[t - 16]))
    st = list(H)
    for t in range(64): st = round_(st, add(W[t], const(K[t])))
    return [add(x, y) for x, y in zip(H, st)]


def bswap(x):
    return xor(xor(shift(x, 24, 0xff), shift(x, 8, 0xff00)), xor(shift(x, -8, 0xff0000), shift(x, -24, 0xff000000)))


def sha256_64(words_be):
    """FIPS 180-4 digest of a 64-byte message given as 16 big-endian words -> 8 words."""
    H = [const(h) for h in H0]
    H = compress(H, words_be)
    pad = [const(0x80000000)] + [const(0)] * 14 + [const(512)]
    return compress(H, pad)
