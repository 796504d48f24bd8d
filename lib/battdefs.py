"""What the concrete runs try, property by property (deterministic in VERIF_SEED)."""
import random, re
from . import common as C, ssz
from .batt import Batt, build, exc
from .ssz import U64, Bool, Bytes, BitV, BitL, Vec, Lst, Cont, Reject, enc, dec, rand, root, merkle, pack, mixin, text

u = U64(); B32 = Bytes(32)
CP = Cont('Checkpoint', [('epoch', u), ('root', B32)])
NB = [1, 2, 3, 4, 8, 20, 31, 32, 33, 48, 64, 96, 100]
NV = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 64, 255, 256, 257, 512, 1000]
VECS = [('vu64_%d' % n, Vec(u, n)) for n in (1, 2, 3, 4, 5, 8, 9, 100)] + [('vB32_%d' % n, Vec(B32, n)) for n in (1, 2, 3, 5, 33)] + \
       [('vCp_%d' % n, Vec(CP, n)) for n in (1, 2, 3)] + [('vBool_3', Vec(Bool(), 3)), ('vB3_4', Vec(Bytes(3), 4))]
BIGV = [('vB32_4096', Vec(B32, 4096)), ('vu64_8193', Vec(u, 8193)), ('vB121_600', Vec(Bytes(121), 600))]
LIMS = [0, 1, 2, 3, 4, 5, 8, 31, 32, 33, 100, 1024, 2**24, 2**40]
deep = C.TIER == 'thorough'


def h(b): return bytes(b).hex() or '-'


def want_dec(t, b):
    try: return '1 ' + h(enc(t, dec(t, b)))
    except Reject: return '0'


def mutants(b, r, n):
    """byte strings near a valid encoding"""
    out = [b[:-1], b + b'\0', b + b'\1', b[1:], b'', b + b, b[:len(b) // 2]]
    for _ in range(n):
        x = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 4])):
            if not x: break
            i = r.randrange(len(x)); k = r.randrange(6)
            if k == 0: x[i] ^= 1 << r.randrange(8)
            elif k == 1: x[i] = r.choice([0, 1, 2, 0x7f, 0x80, 0xff])
            elif k == 2: del x[i:i + r.choice([1, 4, 8, 32])]
            elif k == 3: x[i:i] = r.randbytes(r.choice([1, 4, 8, 32]))
            elif k == 4:
                i -= i % 4; v = int.from_bytes(x[i:i + 4], 'little') + r.choice([-4, -1, 1, 4, -8, 8, 1 << 31, 256])
                x[i:i + 4] = (v & 0xffffffff).to_bytes(4, 'little')
            else:
                i = r.randrange(min(len(x), 400)); x[i:i + 4] = r.choice([0, 1, 4, 8, len(b), len(b) + 1, 2**31, 2**32 - 1, 2**32 - 4]).to_bytes(4, 'little')
        out.append(bytes(x))
    for _ in range(4): out.append(r.randbytes(r.randrange(2 * len(b) + 9) if len(b) < 4000 else r.randrange(4000)))
    return out


def basic_types():
    yield 'u64', '-', u
    yield 'bool', '-', Bool()
    for n in NB: yield 'bytes%d' % n, '-', Bytes(n)


def bit_types():
    for n in NV: yield 'bitv%d' % n, '-', BitV(n)


def bitl_types():
    for l in (0, 1, 7, 8, 9, 16, 255, 256, 257, 300, 2048, 2**20): yield 'bitl', str(l), BitL(l)


def list_types():
    for l in (0, 1, 2, 3, 5, 8, 1000):
        yield 'lu64', str(l), Lst(u, l)
        yield 'lB32', str(l), Lst(B32, l)
        yield 'lCp', str(l), Lst(CP, l)
        yield 'lBool', str(l), Lst(Bool(), l)
        yield 'lB3', str(l), Lst(Bytes(3), l)
        yield 'lB121', str(l), Lst(Bytes(121), l)
        yield 'lB184', str(l), Lst(Bytes(184), l)


def var_list_types(S=None):
    for l in (0, 1, 2, 3, 4, 1000):
        yield 'lBitl', str(l), Lst(BitL(0), l)
        if S: yield 'lAtt', str(l), Lst(S['Attestation'], l)


def vec_types():
    for n, t in VECS: yield n, '-', t


def d_codec(b, types, rounds, nm, k=6, roots=False, maxmut=None):
    for n, p, t in types:
        base = []
        for i in range(rounds):
            v = rand(t, b.r, k); e = enc(t, v); base.append(e)
            b.op('dec %s %s %s' % (n, p, h(e)), want_dec(t, e))
            if roots: b.op('root %s %s %s' % (n, p, h(e)), h(root(t, v)))
            for m in mutants(e, b.r, nm): b.op('dec %s %s %s' % (n, p, h(m)), want_dec(t, m))
        for i in range(rounds):
            x, y = b.r.choice(base), b.r.choice(base)
            b.op('dec2 %s %s %s %s' % (n, p, h(x), h(y)), '1 ' + h(y), 'decode into an object that already holds another value')
            for m in mutants(y, b.r, 2): b.op('dec2 %s %s %s %s' % (n, p, h(x), h(m)), want_dec(t, m), 'decode into an object that already holds another value')
        if p == '-': b.op('size %s %s' % (n, p), str(t.size))


# --- properties --------------------------------------------------------------------------------------------------------------------
def chunks(r, n): return [r.choice([bytes(32), r.randbytes(32)]) for _ in range(n)]


def c07(b, big=True):
    r = b.r
    def one(n, lim):
        c = chunks(r, n)
        try: w = h(merkle(c, lim))
        except Reject: w = exc
        b.op('ht chunks %d %s' % (lim, h(b''.join(c))), w)
    for n in list(range(0, 41)) + ([63, 64, 65, 100, 127, 128, 129, 255, 256, 257] if big else []):
        for lim in {0, 1, n - 1, n, n + 1, 2 * n, 2 * n + 1, 64, 1000, 4096, 2**20 + 1, 2**40, 2**41, 2**42 - 1, 2**42, 2**42 + 1, 2**50, 2**63, 2**64 - 1}:
            if lim >= 0: one(n, lim)
    for n in (511, 513, 1000, 1023, 1024, 1025, 3000) + ((4095, 4097, 10001) if deep else ()):
        for lim in (0, n, 2 * n + 3, 2**40): one(n, lim)
    for n, lim in ((4096, 0), (5000, 2**30), (65537, 0), (100001, 2**41)) + (((1 << 20) + 5, 0), ((1 << 20) - 1, 2**22)) * deep:
        sd = r.getrandbits(40)
        w = merkle([((i * sd + 1) & (2**64 - 1)).to_bytes(8, 'little') + bytes(24) for i in range(n)], lim)
        b.op('ht gen %d %d %d' % (lim, n, sd), h(w))
    for n in (1, 2, 3, 7, 16, 33):
        for lim in (0, n, 5 * n, 2**40):
            for ln in (0, 1, n, 2**32 + 1, 2**63 + 5):
                c = chunks(r, n); b.op('ht chunks %d %s %d' % (lim, h(b''.join(c)), ln), h(mixin(merkle(c, lim), ln)))


def c09(b):
    for n in list(range(0, 140)) + [255, 256, 257, 1000, 1023, 1024, 1025, 65535, 65537, 2097153]:
        x = b.r.choice([b.r.randbytes(n), b'\xff' * n])
        b.op('ht bytes 0 %s' % h(x), h(merkle(pack(x))))
        for ln in (0, 1, 255, 256, n, b.r.getrandbits(64), 2**64 - 1)[:1 if n > 70000 else 7]:
            b.op('ht bytes 0 %s %d' % (h(x), ln), h(mixin(merkle(pack(x)), ln)))
        for lim in (1 + n // 32, 77, 2**30):
            if lim >= len(pack(x)): b.op('ht bytes %d %s' % (lim, h(x)), h(merkle(pack(x), lim)))


def conts(preset): return ssz.schema(preset).items()


def c10(b, preset):
    for n, t in conts(preset):
        huge = n == 'BeaconState' and preset == 'mainnet'
        for i in range(2 if huge else (4 if n == 'BeaconState' else 12) * (4 if deep else 1)):
            v = rand(t, b.r, 4); e = enc(t, v)
            b.op('dec %s - %s' % (n, h(e)), '1 ' + h(e))
            b.op('fld %s %s' % (n, h(e)), fldw(t, v))
            b.op('root %s - %s' % (n, h(e)), h(root(t, v)))
        b.op('size %s -' % n, str(t.size))
        if not huge: limits(b, n, t)


def fldw(t, v):
    w = ['%s=%s' % (f, h(enc(ft, v[f]))) for f, ft in t.fields]
    def cmp(o):
        g = o.split(' ')
        return len(g) == len(w) and all(x == y or x.endswith('=?') for x, y in zip(g, w))
    class W(str): __call__ = lambda s, o: cmp(o)
    return W(' '.join(w))


def limits(b, n, t):
    """lists at and above their limit"""
    for f, ft in t.fields:
        if isinstance(ft, BitL) or isinstance(ft, Lst) and ft.lim <= 2048:
            for k in (ft.lim, ft.lim + 1):
                v = rand(t, b.r, 1, 'zero')
                v[f] = [0] * k if isinstance(ft, BitL) else [rand(ft.t, b.r, 0, 'zero') for _ in range(k)]
                if len(v[f]) * ((ft.t.size or 300) if isinstance(ft, Lst) else 1) > 300000: continue
                e = enc(t, v)
                b.op('dec %s - %s' % (n, h(e)), want_dec(t, e))
                if k == ft.lim: b.op('root %s - %s' % (n, h(e)), h(root(t, v)))


def gparts(r, names=False):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 12])
    out = []
    for i in range(n):
        var = r.random() < r.choice([0, .5, .5, 1])
        c = r.randbytes(r.choice([0, 1, 3, 4, 32, 100]) if var else r.choice([1, 2, 4, 8, 32, 100]))
        out.append((var, c, r.randbytes(32), 'n%d' % r.randrange(1000000) if names else ''))
    return out


def gspec(ps, acc=None): return ' '.join('%s:%d:%d:%s:%s:%s' % ('v' if v else 'f', 0 if v else len(c), 1 if acc is None else acc[i], c.hex() or '-', rt.hex(), nm) for i, (v, c, rt, nm) in enumerate(ps))


def gser(ps):
    fl = sum(4 if v else len(c) for v, c, *_ in ps); fx = va = b''
    for v, c, *_ in ps:
        if v: fx += (fl + len(va)).to_bytes(4, 'little'); va += c
        else: fx += c
    return fx + va


def gdes(ps, b, acc):
    """(verdict, slices) for parts with the given sizes"""
    fl = sum(4 if v else len(c) for v, c, *_ in ps)
    if len(b) < fl: return False, None
    pos = 0; sl = [None] * len(ps); offs = []
    for i, (v, c, *_) in enumerate(ps):
        if v: offs.append((i, int.from_bytes(b[pos:pos + 4], 'little'))); pos += 4
        else: sl[i] = (pos, len(c)); pos += len(c)
    if offs:
        if offs[0][1] != fl: return False, None
        ends = [o for _, o in offs[1:]] + [len(b)]
        for (i, o), e in zip(offs, ends):
            if o > e: return False, None
            sl[i] = (o, e - o)
    elif len(b) != fl: return False, None
    return all(acc), sl


def wide(r):
    """parts around and above 65536 bytes"""
    F = lambda n: (False, r.randbytes(n), bytes(32), ''); V = lambda n: (True, r.randbytes(n), bytes(32), '')
    return [[F(70000), V(5), F(3), V(2)], [V(3), F(65536), V(4)], [F(65535), F(1), V(9)], [F(40000), F(40000), V(70001), V(1)], [V(1), V(65536), V(0), V(2)], [F(65536), F(65537)],
            [(V if i % 3 else F)(1 + i % 5) for i in range(300)], [F(1 + i % 2) for i in range(257)], [V(i % 2) for i in range(100)]]


def c11(b, S):
    for _ in range(400 * (5 if deep else 1)):
        ps = gparts(b.r); b.op('gser . ' + gspec(ps), h(gser(ps)))
    for n in (300, 1000):
        ps = [(i % 3 == 0, b.r.randbytes(1 + i % 5), bytes(32), '') for i in range(n)]; b.op('gser . ' + gspec(ps), h(gser(ps)))
    ps = [(True, b.r.randbytes(70000), bytes(32), ''), (False, b'abc', bytes(32), ''), (True, b.r.randbytes(66000), bytes(32), ''), (True, b'', bytes(32), ''), (True, b'x', bytes(32), '')]
    b.op('gser . ' + gspec(ps), h(gser(ps)))
    for ps in wide(b.r): b.op('gser . ' + gspec(ps), h(gser(ps)))
    for n, t in S.items():
        for i in range(3):
            e = enc(t, rand(t, b.r, 4)); b.op('dec %s - %s' % (n, h(e)), '1 ' + h(e))


def c12(b, S):
    WD = wide(b.r)
    for k in range(300 * (5 if deep else 1)):
        ps = WD[k] if k < len(WD) else gparts(b.r)
        if not ps: continue
        e = gser(ps)
        acc = [b.r.random() < .97 for _ in ps]
        for x in [e] + mutants(e, b.r, 5):
            ok, sl = gdes(ps, x, acc)
            if ok:
                w = '1 ' + ' '.join('%s:%d:1' % (s[0] if s[1] else '\\d+', s[1]) for s in sl)
                # the address of an empty slice is not observable
                rx = re.compile('1 ' + ' '.join(('%d' % s[0] if s[1] else '-?\\d+') + ':%d:1' % s[1] for s in sl) + '$')
                class W(str): __call__ = lambda s, o, rx=rx: bool(rx.match(o))
                w = W(w)
            else:
                class W(str): __call__ = lambda s, o: o.startswith('0 ')
                w = W('0 (rejected)')
            b.op('gdes . %s %s' % (h(x), gspec(ps, acc)), w)
    d_codec(b, [(n, '-', t) for n, t in S.items()], 3 * (4 if deep else 1), 12, 3)
    for n, t in S.items(): limits(b, n, t)


def c13(b, S):
    ts = list(basic_types()) + list(bit_types()) + list(bitl_types()) + list(list_types()) + list(var_list_types(S)) + list(vec_types())
    d_codec(b, ts, 2 * (4 if deep else 1), 8)
    d_codec(b, [(n, '-', t) for n, t in S.items()], 3 * (4 if deep else 1), 15, 3)
    for n, p, t in ts + [(n, '-', t) for n, t in S.items()]:
        for l in list(range(0, 12)) + [16, 33, 100]:
            for x in (bytes(l), b'\xff' * l, b'\x04\0\0\0' * (l // 4), b.r.randbytes(l)): b.op('dec %s %s %s' % (n, p, h(x)), want_dec(t, x))


    # tables of growing offsets whose first offset is no multiple of four, all elements well formed
    for n in (100, 131, 200):
        for f in range(4, 9):
            w = [4 * k + 5 for k in range(n)]; w[0] = f; w[-1] = 4 * n - 2
            x = b''.join(v.to_bytes(4, 'little') for v in w)
            for y in (x, x + b'\1', x[:-1], x[:-4]): b.op('dec lBitl 0 %s' % h(y), want_dec(Lst(BitL(0), 0), y))


def c14(b):
    d_codec(b, list(list_types()) + list(vec_types()), 6 * (4 if deep else 1), 8)
    for n, t in (('lu64', u), ('lB32', B32)):
        for k in (31, 32, 33, 1000):
            e = b''.join(enc(t, rand(t, b.r)) for _ in range(k)); b.op('dec %s %d %s' % (n, k, h(e)), '1 ' + h(e)); b.op('dec %s %d %s' % (n, k - 1, h(e)), '0')
    # encodings of more than 64 KiB
    for n, t in BIGV:
        e = enc(t, rand(t, b.r, 1, 'rand'))
        for x in (e, e[:-1], e + b'\0', e[:len(e) & 0xffff], e[:t.t.size]): b.op('dec %s - %s' % (n, h(x)), want_dec(t, x))
    for n, t in (('lu64', u), ('lB32', B32), ('lB3', Bytes(3)), ('lB121', Bytes(121)), ('lB184', Bytes(184))):
        for ln in (65536, 70000, 131072, 200000):
            k = ln // t.size
            for lim in (0, k - 1, k, k + 1):
                e = b.r.randbytes(k * t.size)
                for x in (e, e + e[:1], e[:-1], e + e[:t.size]): b.op('dec %s %d %s' % (n, lim, h(x)), want_dec(Lst(t, lim), x))


def c15(b, S):
    d_codec(b, list(var_list_types(S)), 10 * (4 if deep else 1), 20)
    t = Lst(BitL(0), 1000)
    for k in (5, 100, 999, 1000, 1001):
        e = enc(t, [[1] * (i % 11) for i in range(k)]); b.op('dec lBitl 1000 %s' % h(e), want_dec(t, e))
    # encodings of more than 64 KiB
    t = Lst(BitL(0), 0)
    for v in ([[1] * (i % 11) for i in range(13000)], [[1] * 300000, [0] * 5, [1] * 230000, [], [1] * 9], [[0] * 9000] * 60):
        e = enc(t, v); b.op('dec lBitl 0 %s' % h(e), '1 ' + h(e))
        for m in mutants(e, b.r, 1)[-6:]: b.op('dec lBitl 0 %s' % h(m), want_dec(t, m))
    # offsets that go back, at every position of the table
    for n in (2, 3, 4, 6):
        e = enc(t, [[1] * 20 for _ in range(n)]); o = [4 * n + 3 * i for i in range(n)]
        for i in range(n):
            for d in (-4 * n, -12, -9, -7, -6, -4, -3, -1, 1, 3, 4, 6, 7, 9, 12, 3 * n):
                if 0 <= o[i] + d:
                    x = bytearray(e); x[4 * i:4 * i + 4] = (o[i] + d).to_bytes(4, 'little'); x = bytes(x); b.op('dec lBitl 0 %s' % h(x), want_dec(t, x))


def c16(b, S):
    for n, p, t in list(basic_types()) + list(bit_types()) + list(vec_types()):
        for i in range(6):
            v = rand(t, b.r); b.op('root %s %s %s' % (n, p, h(enc(t, v))), h(root(t, v)))
    for n, et in (('lu64', u), ('lB32', B32), ('lCp', CP)):
        for l in LIMS:
            for k in (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65):
                if l and k > l: continue
                t = Lst(et, l); v = [rand(et, b.r) for _ in range(k)]
                b.op('root %s %d %s' % (n, l, h(enc(t, v))), h(root(t, v)))
            if l and l < 2000:
                t = Lst(et, l); v = [rand(et, b.r) for _ in range(l)]; b.op('root %s %d %s' % (n, l, h(enc(t, v))), h(root(t, v)))
    for l in LIMS:
        t = Lst(S['Attestation'], l)
        for k in (0, 1, 2, 3, 5):
            if l and k > l: continue
            v = [rand(S['Attestation'], b.r) for _ in range(k)]; b.op('root lAtt %d %s' % (l, h(enc(t, v))), h(root(t, v)))
    for l in LIMS + [255, 256, 257, 511, 512, 513, 2048]:
        t = BitL(l)
        for k in (0, 1, 7, 8, 9, 31, 32, 33, 255, 256, 257, 511, 512, 513, 2000):
            if l and k > l: continue
            for m in ('ones', 'rand'):
                v = [1 if m == 'ones' else b.r.getrandbits(1) for _ in range(k)]; b.op('root bitl %d %s' % (l, h(enc(t, v))), h(root(t, v)))
    for k in (65535, 65536, 70001): t = BitL(2**20); v = big(b.r, k); b.op('root bitl %d %s' % (2**20, h(enc(t, v))), h(root(t, v)))
    for n, et, k in (('lu64', u, 8200), ('lu64', u, 70001), ('lB32', B32, 4100), ('lCp', CP, 2100)):
        t = Lst(et, 2**40); v = [rand(et, b.r) for _ in range(k)]; b.op('root %s %d %s' % (n, 2**40, h(enc(t, v))), h(root(t, v)))


def big(r, k): return [int(c) for c in bin(r.getrandbits(k) | 1 << k)[3:]]


def c17(b):
    for k in (65535, 65536, 65537, 70003, 524288 + 9):
        t = BitL(0); e = enc(t, big(b.r, k))
        for l in (0, k, k - 1): b.op('dec bitl %d %s' % (l, h(e)), want_dec(BitL(l), e))
        b.op('dec bitl 0 %s' % h(e + b'\0'), want_dec(t, e + b'\0')); b.op('bitn bitl %s' % h(e), str(k))
    d_codec(b, list(bitl_types()), 12 * (4 if deep else 1), 8)
    for k in range(0, 70):
        t = BitL(0); v = [b.r.getrandbits(1) for _ in range(k)]; e = enc(t, v)
        b.op('dec bitl 0 %s' % h(e), '1 ' + h(e)); b.op('bitn bitl %s' % h(e), str(k)); b.op('bits bitl %s' % h(e), 'b' + ''.join(map(str, v)))
        b.op('dec bitl %d %s' % (k, h(e)), '1 ' + h(e))
        if k > 1: b.op('dec bitl %d %s' % (k - 1, h(e)), '0')
    for x in range(256):
        for y in (b'', b'\0', b'\xff', b'\x5a\xc3'): b.op('dec bitl 0 %s' % h(y + bytes([x])), want_dec(BitL(0), y + bytes([x])))


def c18(b):
    d_codec(b, list(bit_types()), 10 * (4 if deep else 1), 8)
    for n in NV:
        b.op('new bitv%d' % n, h(bytes((n + 7) // 8)))
        for _ in range(4): v = [b.r.getrandbits(1) for _ in range(n)]; b.op('bits bitv%d %s' % (n, h(enc(BitV(n), v))), ''.join(map(str, v)))
        for i in range(min(n, 300)): e = (1 << i).to_bytes((n + 7) // 8, 'little'); b.op('dec bitv%d - %s' % (n, h(e)), '1 ' + h(e))
        for i in range(n, (n + 7) // 8 * 8): b.op('dec bitv%d - %s' % (n, h((1 << i).to_bytes((n + 7) // 8, 'little'))), '0')


def c19(b):
    d_codec(b, list(basic_types()), 25 * (4 if deep else 1), 6)
    for x in range(256): b.op('dec bool - %02x' % x, '1 %02x' % x if x < 2 else '0')
    for i in range(64):
        for v in (1 << i, (1 << i) - 1, b.r.getrandbits(64)):
            e = enc(u, v); b.op('ints . %d' % v, '%d %d %s' % (v, v, h(e))); b.op('root u64 - %s' % h(e), h(e + bytes(24))); b.op('dec u64 - %s' % h(e), '1 ' + h(e))
            for n in NB:
                w = min(8 if n >= 8 else 4 if n >= 4 else 1, n)
                b.op('ctor_int bytes%d %d' % (n, v & (256**w - 1)), h((v & (256**w - 1)).to_bytes(w, 'little') + bytes(n - w)))


def th(s): return s.encode('latin1').hex() or '-'


def c20(b):
    for c in '0123456789abcdefABCDEF': b.op('hextoint . %d' % ord(c), str(int(c, 16)))
    for c in range(256):
        if chr(c) not in '0123456789abcdefABCDEF': b.op('hextoint . %d' % (c - 256 if c > 127 else c), anyv)
    for x in range(256):
        for s in {'%02x' % x, '%02X' % x}: b.op('strhex . %s' % th(s), str(x))
    for n, p, t in list(basic_types())[2:] + list(bit_types()) + [('bitl', '0', BitL(0))] * 8:
        for i in range(8):
            v = rand(t, b.r); e = enc(t, v); s = '0x' + e.hex()
            b.op('totxt %s %s' % (n, h(e)), th(s)); b.op('frtxt %s %s' % (n, th(s)), h(e)); b.op('frtxt %s %s' % (n, th('0x' + e.hex().upper())), h(e))
            b.op('frtxt %s %s' % (n, th(e.hex())), exc); b.op('frtxt %s %s' % (n, th('0X' + e.hex())), exc); b.op('frtxt %s %s' % (n, th('x0' + e.hex())), exc)
            if n.startswith('bytes'):
                b.op('frtxt %s %s' % (n, th(s + '00')), exc); b.op('frtxt %s %s' % (n, th(s + '0')), exc)
                b.op('ctor_txt %s %s' % (n, th(s)), h(e))
            else: b.op('frtxt %s %s' % (n, th(s[:-1])), exc); b.op('frtxt %s %s' % (n, th(s + '0')), exc)
        for s in ('', '0', '0x', 'x', '0x0', '0xg', '0x\xff\xfe', '0x\x80\x81', '0xzz', '0x' + '1' * 600, '0x0' + '\xff' * 601): b.op('frtxt %s %s' % (n, th(s)), anyv if not (s in ('', '0', 'x') or n.startswith('bit') and len(s) % 2) else exc)
        for x in range(0, 256, 1 if n in ('bytes2', 'bitv16') else 51):
            if n in ('bytes2', 'bitv16', 'bitl'): e = bytes([x, 255 - x or 1]); b.op('totxt %s %s' % (n, h(e)), th('0x' + e.hex())); b.op('frtxt %s %s' % (n, th('0x' + e.hex())), h(e))
    for k in (65535 * 4, 65536 * 4 + 3, 70001 * 4): e = enc(BitL(0), big(b.r, k)); s = '0x' + e.hex(); b.op('totxt bitl %s' % h(e), th(s)); b.op('frtxt bitl %s' % th(s), h(e))
    for s in ('0x00', '0x0000', '0x', '0x0100'): b.op('frtxt bitl %s' % th(s), exc)


def anyv(o): return True


def flow(x, r):
    if isinstance(x, dict):
        k = list(x); r.shuffle(k)
        return '{' + ', '.join('%s: %s' % (i, flow(x[i], r)) for i in k) + '}'
    if isinstance(x, list): return '[' + ', '.join(flow(i, r) for i in x) + ']'
    return x


def canon(s):
    """parse what txt() of the driver prints"""
    def val(i):
        if s[i] == '{':
            d = {}; i += 1
            while s[i] != '}':
                j = s.index(':', i); k = s[i:j]; v, i = val(j + 1)
                if k in d: return ('duplicate', k), len(s)
                d[k] = v
                if s[i] == ',': i += 1
            return d, i + 1
        if s[i] == '[':
            l = []; i += 1
            while s[i] != ']':
                v, i = val(i); l.append(v)
                if s[i] == ',': i += 1
            return l, i + 1
        j = i
        while j < len(s) and s[j] not in ',}]': j += 1
        return s[i:j], j
    v, i = val(0)
    return v if i == len(s) else None


def yw(x):
    class W(str):
        def __call__(s, o):
            try: return canon(bytes.fromhex(o).decode('latin1')) == x
            except (ValueError, IndexError): return False
    return W('the hex form of %s' % x)


def c21(b, S):
    def bad(o): return o == '0' or exc(o)
    for n, t in S.items():
        for i in range(3 if n == 'BeaconState' else 8):
            v = rand(t, b.r, 3); e = enc(t, v); x = text(t, v); pv = rand(t, b.r, 3)
            b.op('yaml %s - %s' % (n, h(e)), yw(x))
            b.op('ydec %s - none %s' % (n, th(flow(x, b.r))), '1 ' + h(e))
            b.op('ydec %s - %s %s' % (n, h(enc(t, pv)), th(flow(x, b.r))), '1 ' + h(e))
        for f, ft in t.fields:
            v = rand(t, b.r, 2); x = text(t, v)
            if n != 'BeaconState' or len(repr(x)) < 60000:
                y = dict(x); y[f] = [{'p': 'q'}]; b.op('ydec %s - none %s' % (n, th(flow(y, b.r))), bad)
                y = dict(x); del y[f]; b.op('ydec %s - none %s' % (n, th(flow(y, b.r))), bad)
    for n, p, t in list(basic_types()) + list(bit_types())[:8] + list(list_types())[:10] + list(var_list_types())[:3] + list(vec_types()) + [('bitl', '0', BitL(0))]:
        for i in range(4):
            v = rand(t, b.r); e = enc(t, v); x = text(t, v)
            b.op('yaml %s %s %s' % (n, p, h(e)), yw(x)); b.op('ydec %s %s none %s' % (n, p, th(flow(x, b.r) if x != [] else '[]')), '1 ' + h(e))
    for n, _, t in vec_types():   # a vector takes exactly as many elements as it has
        for k in (0, t.n - 1, t.n + 1, 2 * t.n):
            if k == t.n or k > 300: continue
            x = text(Vec(t.t, k), rand(Vec(t.t, k), b.r)) if k else []
            b.op('ydec %s - none %s' % (n, th(flow(x, b.r) if x != [] else '[]')), bad)
    for _ in range(60):
        ps = gparts(b.r, True)
        if not ps or len(set(p[3] for p in ps)) < len(ps): continue
        x = {nm: c.hex() or '-' for _, c, _, nm in ps}
        b.op('genc . ' + gspec(ps), yw(x))
        b.op('gdec . %s %s' % (th(flow({k: '"%s"' % v for k, v in x.items()}, b.r)), gspec([(v, b'', rt, nm) if v else (v, b'', rt, nm) for v, c, rt, nm in ps])), '1 ' + ' '.join(x[nm] for *_, nm in ps))
        acc = [1] * len(ps); acc[b.r.randrange(len(ps))] = 0
        b.op('gdec . %s %s' % (th(flow({k: '"%s"' % v for k, v in x.items()}, b.r)), gspec(ps, acc)), lambda o: o.startswith('0') or exc(o))


def leaves(t, v, path=()):
    if isinstance(t, Cont):
        for f, ft in t.fields: yield from leaves(ft, v[f], path + (f,))
    elif isinstance(t, (Vec, Lst)):
        for i in list(range(len(v)))[:3] + ([len(v) - 1] if len(v) > 3 else []): yield from leaves(t.t, v[i], path + (i,))
        if isinstance(t, Lst): yield path, t
    else: yield path, t


def change(r, t, v):
    if isinstance(t, U64): return v ^ (1 << r.randrange(64))
    if isinstance(t, Bool): return 1 - v
    if isinstance(t, Bytes): x = bytearray(v); x[r.choice([0, -1, r.randrange(t.n)])] ^= 1 << r.randrange(8); return bytes(x)
    if isinstance(t, BitV): x = list(v); x[r.choice([0, -1, r.randrange(t.n)])] ^= 1; return x
    if isinstance(t, BitL):
        x = list(v)
        if x and r.random() < .6: x[r.choice([0, -1])] ^= 1; return x
        return x + [0] if not t.lim or len(x) < t.lim else x[:-1]
    if v and r.random() < .5: return v[:-1]
    if not t.lim or len(v) < t.lim: return v + [v[-1] if v else rand(t.t, r, 1)]
    return v[:-1]


def put(v, path, x):
    if not path: return x
    c = dict(v) if isinstance(v, dict) else list(v)
    c[path[0]] = put(c[path[0]], path[1:], x)
    return c


def at(v, path):
    for p in path: v = v[p]
    return v


def c22(b, S):
    ts = list(basic_types()) + list(bit_types()) + [x for x in bitl_types() if x[1] in ('0', '300')] + [x for x in list_types() if x[1] in ('0', '8')] + \
        [x for x in var_list_types(S) if x[1] in ('0', '4')] + list(vec_types()) + [(n, '-', t) for n, t in S.items()]
    for n, p, t in ts:
        for i in range(2 if n == 'BeaconState' else 3):
            v = rand(t, b.r, 3); e = enc(t, v)
            b.op('eq %s %s %s %s' % (n, p, h(e), h(e)), '1')
            ls = list(leaves(t, v))
            for path, lt in (ls if len(ls) < 40 else b.r.sample(ls, 40)):
                w = put(v, path, change(b.r, lt, at(v, path)))
                if w != v: b.op('eq %s %s %s %s' % (n, p, h(e), h(enc(t, w))), '0'); b.op('eq %s %s %s %s' % (n, p, h(enc(t, w)), h(e)), '0')
            w = rand(t, b.r, 3); b.op('eq %s %s %s %s' % (n, p, h(e), h(enc(t, w))), '1' if w == v else '0')
    for n, t, v in (('bitl', BitL(0), big(b.r, 70001)), ('lu64', Lst(u, 0), [b.r.getrandbits(64) for _ in range(70001)])):
        for i in (0, 65535, 65536, 70000):
            w = list(v); w[i] ^= 1
            b.op('eq %s 0 %s %s' % (n, h(enc(t, v)), h(enc(t, w))), '0')
        b.op('eq %s 0 %s %s' % (n, h(enc(t, v)), h(enc(t, v))), '1'); b.op('eq %s 0 %s %s' % (n, h(enc(t, v)), h(enc(t, v[:65536]))), '0'); b.op('eq %s 0 %s %s' % (n, h(enc(t, v[:70001 - 65536])), h(enc(t, v))), '0')
    for n in NB:
        x = b.r.randbytes(n)
        for y in (x, x[:-1], x + b'\0', x[:-1] + bytes([x[-1] ^ 1]), bytes([x[0] ^ 128]) + x[1:]): b.op('eqv bytes%d %s %s' % (n, h(x), h(y)), '1' if x == y else '0')


def c23(b, S):
    r = b.r; F = 2**64 - 1; t = S['Validator']
    pts = [0, 1, 5, 6, 7, 100, 2**32, 2**63 - 1, 2**63, F - 1, F]
    for _ in range(4000 * (5 if deep else 1)):
        v = rand(t, r, 0)
        base = r.choice(pts + [r.getrandbits(64)])
        near = lambda: r.choice([base, base, min(base + 1, F), max(base - 1, 0), r.choice(pts)])
        v['activation_epoch'], v['exit_epoch'], v['withdrawable_epoch'], e = near(), near(), near(), near()
        v['activation_eligibility_epoch'] = r.choice([F, F, F - 1, 0, near()]); v['effective_balance'] = r.choice([32 * 10**9] * 2 + [32 * 10**9 + 1, 32 * 10**9 - 1, 31 * 10**9, 0])
        v['slashed'] = r.getrandbits(1)
        w = '%d%d%d' % (v['activation_epoch'] <= e < v['exit_epoch'], not v['slashed'] and v['activation_epoch'] <= e < v['withdrawable_epoch'],
                        v['activation_eligibility_epoch'] == F and v['effective_balance'] == 32 * 10**9)
        b.op('vp . %s %d' % (h(enc(t, v)), e), w, 'validator %s epoch %d: active, slashable, eligible' % ({k: x for k, x in v.items() if isinstance(x, int)}, e))


def c24(b, S):
    r = b.r; t = S['AttestationData']; it = S['IndexedAttestation']
    for _ in range(2500 * (5 if deep else 1)):
        x = rand(t, r); y = put(x, (), dict(x)) if r.random() < .6 else rand(t, r)
        k = r.choice([3, 2**64 - 1])
        ep = lambda: r.choice([0, 1, 2, 3, k, 2**63])
        if r.random() < .7:
            for d in (x, y):
                for f in ('source', 'target'): d[f] = dict(d[f], epoch=ep())
        if r.random() < .5: y['target'] = dict(y['target'], epoch=x['target']['epoch'])
        if r.random() < .4: y = dict(x)
        if r.random() < .5:
            p, lt = r.choice(list(leaves(t, y))); y = put(y, p, change(r, lt, at(y, p)))
        w = (x != y and x['target']['epoch'] == y['target']['epoch']) or (x['source']['epoch'] < y['source']['epoch'] and y['target']['epoch'] < x['target']['epoch'])
        b.op('asl . %s %s' % (h(enc(t, x)), h(enc(t, y))), '%d' % w)
    for _ in range(1200 * (5 if deep else 1)):
        n = r.choice([0, 1, 2, 3, 4, 5, 9, 40])
        l = sorted({r.randrange(r.choice([60, 2**64])) for _ in range(n)}) if r.random() < .6 else [r.choice([r.randrange(6), r.getrandbits(64)]) for _ in range(n)]
        n = len(l)
        if n > 1 and r.random() < .5:
            i = r.randrange(n - 1)
            if r.random() < .5: l[i + 1] = l[i]
            else: l[i], l[i + 1] = l[i + 1], l[i]
        v = rand(it, r, 0); v['attesting_indices'] = l
        b.op('iav . %s' % h(enc(it, v)), '%d' % (n > 0 and all(p < q for p, q in zip(l, l[1:]))))
    for n, i in ((257, 256 - 1), (2048, None), (2048, 2046), (2048, 255), (2048, 3)):
        v['attesting_indices'] = l = list(range(5, 5 + n))
        if i is not None: l[i + 1] = l[i]
        b.op('iav . %s' % h(enc(it, v)), '%d' % (i is None))


def c25(b):
    import math
    r = b.r
    xs = set(range(300)) | {2**64 - 1 - i for i in range(40)} | {2**32 - 1, 2**32}
    for k in range(64): xs |= {(1 << k) + d for d in (-1, 0, 1)}
    for k in list(range(0, 2**32, 2**32 // (3000 * (5 if deep else 1)))) + [2**32 - 1 - i for i in range(50)] + [94906265 + i for i in range(-5, 6)]: xs |= {k * k + d for d in (-1, 0, 1)}
    xs |= {r.getrandbits(r.randrange(1, 65)) for _ in range(4000)}
    for x in sorted(v for v in xs if 0 <= v < 2**64):
        b.op('isqrt . %d' % x, str(math.isqrt(x))); b.op('log2 u64 %d' % x, str((x - 1).bit_length() if x else 0))


def c26(b, S):
    for n, t in S.items():
        for _ in range(3):
            v = rand(t, b.r, 3); e = enc(t, v); w = {f: h(enc(ft, v[f])) for f, ft in t.fields}
            b.op('acc %s %s' % (n, h(e)), lambda o, w=w: all(x.split('=', 1)[1] == w[x.split('=', 1)[0]] for x in o.split()) if not exc(o) else False)
    for n in NB:
        for _ in range(6):
            x, y = b.r.randbytes(n), b.r.randbytes(n)
            b.op('xor bytes%d %s %s' % (n, h(x), h(y)), h(bytes(p ^ q for p, q in zip(x, y))) + ' ' + h(y))
            b.op('seq bytes%d %s' % (n, h(x)), ' '.join([h(x)] * 8))
    for n, m in ((4, 28), (32, 32), (1, 3), (48, 48), (20, 1), (3, 96), (31, 33), (100, 100)):
        for _ in range(4): x, y = b.r.randbytes(n), b.r.randbytes(m); b.op('cat %d_%d %s %s' % (n, m, h(x), h(y)), h(x + y))
    for n in (1, 2, 4, 8):
        for _ in range(8): x = b.r.randbytes(n); b.op('toint %d %s' % (n, h(x)), str(int.from_bytes(x, 'little')))
    ts = [(n, t) for n, _, t in vec_types() if n not in dict(BIGV)] + [('lu64', Lst(u, 0)), ('lCp', Lst(CP, 0)), ('lB3', Lst(Bytes(3), 0)), ('lBitl', Lst(BitL(0), 0))]
    for n, t in ts:
        for _ in range(5):
            v = rand(t, b.r); w = ''.join(h(enc(t.t, x)) + ',' for x in v)
            b.op('seq %s %s' % (n, h(enc(t, v))), lambda o, k=len(v), w=w: not exc(o) and o.split(' ')[0] == str(k) and all(x == w for x in o.split(' ')[1:]))


SPEC = {
    'C07': (('gen',), lambda b, S: c07(b), 'all chunk counts 0..40 and selected up to 100001, limits 0..2^42'),
    'C08': (('gen',), lambda b, S: c07(b), 'chunk counts 0..100001, limits up to 2^42, AddressSanitizer'),
    'C09': (('gen',), lambda b, S: c09(b), 'byte string lengths 0..140 and up to 2097153, selected lengths mixed in'),
    'C10': (('cont',), None, 'random values of every container type, both presets; lists at and above their limits'),
    'C11': (('gen', 'cont'), c11, 'random part sequences of up to 1000 parts, random containers'),
    'C12': (('gen', 'cont'), c12, 'random part sequences and mutated encodings of every container'),
    'C13': (('bytes', 'bits', 'lists', 'vecs', 'cont'), c13, 'mutated and random byte strings of every type under AddressSanitizer/UBSan'),
    'C14': (('lists', 'vecs'), lambda b, S: c14(b), 'random and mutated encodings, 5 element types'),
    'C15': (('lists', 'cont'), c15, 'random and mutated encodings, 2 element types'),
    'C16': (('bytes', 'bits', 'lists', 'vecs', 'cont'), c16, 'element counts up to 70001, limits up to 2^40'),
    'C17': (('bits',), lambda b, S: c17(b), 'bit counts up to 524297, all last bytes'),
    'C18': (('bits',), lambda b, S: c18(b), '18 sizes up to 1000 bits'),
    'C19': (('bytes',), lambda b, S: c19(b), '13 array sizes, all booleans, powers of two and random integers'),
    'C20': (('bytes', 'bits'), lambda b, S: c20(b), 'all digits and byte values, random texts'),
    'C21': (('bytes', 'bits', 'lists', 'vecs', 'gen', 'cont'), c21, 'random values of every type'),
    'C22': (('bytes', 'bits', 'lists', 'vecs', 'cont'), c22, 'random values, each field changed in turn'),
    'C23': (('misc',), c23, 'random and boundary epochs and balances'),
    'C24': (('misc',), c24, 'random and boundary epochs, lists of up to 2048 indices (the limit)'),
    'C26': (('bytes', 'lists', 'vecs', 'cont'), c26, 'random values of every size, element type and container'),
    'C25': (('misc',), lambda b, S: c25(b), 'all values near powers of two and near 3000+ perfect squares, random values'),
}


def hasher_battery(ck):
    import json, os, subprocess
    out = os.path.join(ck.tmp, 'hash_drv')
    try: C.run(['clang++', '-std=c++20', '-w', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-I' + C.REPO, os.path.join(C.VERIF, 'batt/hash_drv.cpp'), '-o', out])
    except C.CmdError as e:
        ck.notes.append('battery driver does not build: %s' % str(e)[:600]); return False
    try: p = subprocess.run([out, str(C.SEED)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        ck.notes.append('battery C06 did not finish'); return False
    bad = None; n = 0
    for l in p.stdout.splitlines():
        if l.startswith('BAD '): bad = json.loads(l[4:])
        if l.startswith('OK '): n = int(l.split('=')[1])
    if bad is None and not n: bad = {'what': 'crash', 'stderr': p.stderr[-800:]}
    ck.batt('C06/selection', 'all 16 feature combinations, 7 largest leaves, 40 settings of the other bits, 5 requests', n, bad, 'clang++ -I/repo batt/hash_drv.cpp; run with the seed')
    return bad is not None


def battery(check, pid):
    """returns True when a failing input was found"""
    if pid == 'C06': return hasher_battery(check)
    parts, f, bound = SPEC[pid]
    found = False
    for preset in (('minimal', 'mainnet') if pid == 'C10' else ('minimal',)):
        drv = build(check, preset, parts)
        if drv is None: continue
        b = Batt(check, drv, pid + '/' + preset, bound)
        if pid == 'C10': c10(b, preset)
        else: f(b, ssz.schema(preset))
        if b.run(): found = True
    return found
