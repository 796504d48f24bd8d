"""Reference SSZ (consensus phase-0 specification), written from the specification, not from /repo."""
import hashlib


class Reject(Exception): pass


class U64:
    size = 8
    def __repr__(s): return 'u64'
class Bool:
    size = 1
    def __repr__(s): return 'bool'
class Bytes:
    def __init__(s, n): s.n = s.size = n
    def __repr__(s): return 'bytes%d' % s.n
class BitV:
    def __init__(s, n): s.n = n; s.size = (n + 7) // 8
    def __repr__(s): return 'bitvector[%d]' % s.n
class BitL:
    size = 0
    def __init__(s, lim): s.lim = lim
    def __repr__(s): return 'bitlist[%d]' % s.lim
class Vec:
    def __init__(s, t, n): s.t = t; s.n = n; s.size = t.size * n
    def __repr__(s): return 'vector[%r,%d]' % (s.t, s.n)
class Lst:
    size = 0
    def __init__(s, t, lim): s.t = t; s.lim = lim
    def __repr__(s): return 'list[%r,%d]' % (s.t, s.lim)
class Cont:
    def __init__(s, name, fields):
        s.name = name; s.fields = fields
        s.size = 0 if any(t.size == 0 for _, t in fields) else sum(t.size for _, t in fields)
    def __repr__(s): return s.name


def enc(t, v):
    if isinstance(t, U64): return v.to_bytes(8, 'little')
    if isinstance(t, Bool): return bytes([1 if v else 0])
    if isinstance(t, Bytes): return v
    if isinstance(t, BitV):
        r = bytearray(t.size)
        for i, b in enumerate(v): r[i // 8] |= b << (i % 8)
        return bytes(r)
    if isinstance(t, BitL):
        r = bytearray(len(v) // 8 + 1)
        for i, b in enumerate(list(v) + [1]): r[i // 8] |= b << (i % 8)
        return bytes(r)
    if isinstance(t, (Vec, Lst)):
        parts = [(t.t, x) for x in v]
    else: parts = [(ft, v[n]) for n, ft in t.fields]
    fixed = []; var = []; vl = 0
    flen = sum(x.size or 4 for x, _ in parts)
    for x, y in parts:
        e = enc(x, y)
        if x.size: fixed.append(e)
        else: fixed.append((flen + vl).to_bytes(4, 'little')); var.append(e); vl += len(e)
    return b''.join(fixed) + b''.join(var)


def dec(t, b):
    if isinstance(t, U64):
        if len(b) != 8: raise Reject('length')
        return int.from_bytes(b, 'little')
    if isinstance(t, Bool):
        if len(b) != 1 or b[0] > 1: raise Reject('bool')
        return b[0]
    if isinstance(t, Bytes):
        if len(b) != t.n: raise Reject('length')
        return bytes(b)
    if isinstance(t, BitV):
        if len(b) != t.size: raise Reject('length')
        x = int.from_bytes(b, 'little')
        if x >> t.n: raise Reject('unused bit')
        return [x >> i & 1 for i in range(t.n)]
    if isinstance(t, BitL):
        if not b or b[-1] == 0: raise Reject('delimiter')
        x = int.from_bytes(b, 'little'); n = x.bit_length() - 1
        if t.lim and n > t.lim: raise Reject('limit')
        return [x >> i & 1 for i in range(n)]
    if isinstance(t, Vec):
        if len(b) != t.size: raise Reject('length')
        return [dec(t.t, b[i * t.t.size:(i + 1) * t.t.size]) for i in range(t.n)]
    if isinstance(t, Lst):
        s = t.t.size
        if s:
            if len(b) % s: raise Reject('length')
            if t.lim and len(b) // s > t.lim: raise Reject('limit')
            return [dec(t.t, b[i:i + s]) for i in range(0, len(b), s)]
        if not b: return []
        if len(b) < 4: raise Reject('short')
        f = int.from_bytes(b[:4], 'little')
        if f % 4 or f == 0 or f > len(b): raise Reject('first offset')
        n = f // 4
        if t.lim and n > t.lim: raise Reject('limit')
        offs = [int.from_bytes(b[4 * i:4 * i + 4], 'little') for i in range(n)] + [len(b)]
        for i in range(n):
            if offs[i] > offs[i + 1]: raise Reject('offsets')
        return [dec(t.t, b[offs[i]:offs[i + 1]]) for i in range(n)]
    flen = sum(x.size or 4 for _, x in t.fields)
    if len(b) < flen: raise Reject('short')
    pos = 0; offs = []; r = {}
    for n, ft in t.fields:
        if ft.size: r[n] = dec(ft, b[pos:pos + ft.size]); pos += ft.size
        else: offs.append((n, ft, int.from_bytes(b[pos:pos + 4], 'little'))); pos += 4
    if not offs:
        if len(b) != flen: raise Reject('length')
        return r
    if offs[0][2] != flen: raise Reject('first offset')
    ends = [o for _, _, o in offs[1:]] + [len(b)]
    for (n, ft, o), e in zip(offs, ends):
        if o > e: raise Reject('offsets')
        r[n] = dec(ft, b[o:e])
    return r


def sha(b): return hashlib.sha256(b).digest()


Z = [bytes(32)]
for _ in range(64): Z.append(sha(Z[-1] * 2))


def merkle(chunks, limit=0):
    """limit in chunks, 0: no limit"""
    n = len(chunks)
    if n == 0 or (limit and n > limit): raise Reject('chunks')
    depth = max((limit or n) - 1, 0).bit_length()
    l = list(chunks)
    for d in range(depth):
        if len(l) % 2: l.append(Z[d])
        l = [sha(l[i] + l[i + 1]) for i in range(0, len(l), 2)]
    return l[0]


def pack(b):
    if not b: return [bytes(32)]
    b = b + bytes(-len(b) % 32)
    return [b[i:i + 32] for i in range(0, len(b), 32)]


def mixin(r, n): return sha(r + n.to_bytes(32, 'little'))


def root(t, v):
    if isinstance(t, (U64, Bool, Bytes, BitV)): return merkle(pack(enc(t, v)))
    if isinstance(t, BitL):
        r = bytearray((len(v) + 7) // 8)
        for i, b in enumerate(v): r[i // 8] |= b << (i % 8)
        return mixin(merkle(pack(bytes(r)), (t.lim + 255) // 256), len(v))
    basic = isinstance(t, (Vec, Lst)) and isinstance(t.t, U64)
    if isinstance(t, Vec):
        return merkle(pack(enc(t, v))) if basic else merkle([root(t.t, x) for x in v])
    if isinstance(t, Lst):
        if basic: return mixin(merkle(pack(enc(t, v)), (t.lim * 8 + 31) // 32), len(v))
        return mixin(merkle([root(t.t, x) for x in v] or [bytes(32)], t.lim), len(v))
    return merkle([root(ft, v[n]) for n, ft in t.fields])


def rand(t, r, k=3, mode=None):
    """a random value; lists hold up to k elements"""
    m = mode if mode is not None else r.choice(['rand', 'rand', 'zero', 'ones', 'small'])
    if isinstance(t, U64): return {'zero': 0, 'ones': 2**64 - 1, 'small': r.randrange(300)}.get(m, r.getrandbits(64))
    if isinstance(t, Bool): return {'zero': 0, 'ones': 1}.get(m, r.getrandbits(1))
    if isinstance(t, Bytes): return {'zero': bytes(t.n), 'ones': b'\xff' * t.n}.get(m, r.randbytes(t.n))
    if isinstance(t, BitV): return [{'zero': 0, 'ones': 1}.get(m, r.getrandbits(1)) for _ in range(t.n)]
    if isinstance(t, BitL):
        n = r.choice([0, 1, 7, 8, 9, 15, 16, 17, r.randrange(300), 255, 256, 257])
        if t.lim: n = min(n, t.lim)
        return [{'zero': 0, 'ones': 1}.get(m, r.getrandbits(1)) for _ in range(n)]
    if isinstance(t, Vec): return [rand(t.t, r, k, mode) for _ in range(t.n)]
    if isinstance(t, Lst):
        n = r.randrange(k + 1)
        if t.lim: n = min(n, t.lim)
        return [rand(t.t, r, k, mode) for _ in range(n)]
    return {n: rand(ft, r, k, mode) for n, ft in t.fields}


def text(t, v):
    """structured text form: nested dict / list / str"""
    if isinstance(t, U64): return str(v)
    if isinstance(t, Bool): return 'true' if v else 'false'
    if isinstance(t, (Bytes, BitV, BitL)): return '0x' + enc(t, v).hex()
    if isinstance(t, (Vec, Lst)): return [text(t.t, x) for x in v]
    return {n: text(ft, v[n]) for n, ft in t.fields}


# --- phase-0 schema ------------------------------------------------------------------------------------------------------------
PRESET = {
    'mainnet': dict(SLOTS_PER_HISTORICAL_ROOT=8192, EPOCHS_PER_ETH1_VOTING_PERIOD=64, SLOTS_PER_EPOCH=32, EPOCHS_PER_HISTORICAL_VECTOR=65536,
                    EPOCHS_PER_SLASHINGS_VECTOR=8192),
    'minimal': dict(SLOTS_PER_HISTORICAL_ROOT=64, EPOCHS_PER_ETH1_VOTING_PERIOD=4, SLOTS_PER_EPOCH=8, EPOCHS_PER_HISTORICAL_VECTOR=64,
                    EPOCHS_PER_SLASHINGS_VECTOR=64)}


def schema(preset):
    p = PRESET[preset]
    u = U64(); B4, B32, B48, B96 = Bytes(4), Bytes(32), Bytes(48), Bytes(96)
    S = {}
    def c(name, *f):
        S[name] = Cont(name, list(f)); return S[name]
    c('Fork', ('previous_version', B4), ('current_version', B4), ('epoch', u))
    c('ForkData', ('current_version', B4), ('genesis_validators_root', B32))
    cp = c('Checkpoint', ('epoch', u), ('root', B32))
    c('SigningData', ('object_root', B32), ('domain', B32))
    ad = c('AttestationData', ('slot', u), ('index', u), ('beacon_block_root', B32), ('source', cp), ('target', cp))
    ia = c('IndexedAttestation', ('attesting_indices', Lst(u, 2048)), ('data', ad), ('signature', B96))
    pa = c('PendingAttestation', ('aggregation_bits', BitL(2048)), ('data', ad), ('inclusion_delay', u), ('proposer_index', u))
    at = c('Attestation', ('aggregation_bits', BitL(2048)), ('data', ad), ('signature', B96))
    c('DepositMessage', ('pubkey', B48), ('withdrawal_credentials', B32), ('amount', u))
    dd = c('DepositData', ('pubkey', B48), ('withdrawal_credentials', B32), ('amount', u), ('signature', B96))
    de = c('Deposit', ('proof', Vec(B32, 33)), ('data', dd))
    e1 = c('Eth1Data', ('deposit_root', B32), ('deposit_count', u), ('block_hash', B32))
    bh = c('BeaconBlockHeader', ('slot', u), ('proposer_index', u), ('parent_root', B32), ('state_root', B32), ('body_root', B32))
    ve = c('VoluntaryExit', ('epoch', u), ('validator_index', u))
    sve = c('SignedVoluntaryExit', ('message', ve), ('signature', B96))
    sbh = c('SignedBeaconBlockHeader', ('message', bh), ('signature', B96))
    ps = c('ProposerSlashing', ('signed_header_1', sbh), ('signed_header_2', sbh))
    asl = c('AttesterSlashing', ('attestation_1', ia), ('attestation_2', ia))
    bb = c('BeaconBlockBody', ('randao_reveal', B96), ('eth1_data', e1), ('graffiti', B32), ('proposer_slashings', Lst(ps, 16)),
           ('attester_slashings', Lst(asl, 2)), ('attestations', Lst(at, 128)), ('deposits', Lst(de, 16)), ('voluntary_exits', Lst(sve, 16)))
    bk = c('BeaconBlock', ('slot', u), ('proposer_index', u), ('parent_root', B32), ('state_root', B32), ('body', bb))
    c('SignedBeaconBlock', ('message', bk), ('signature', B96))
    va = c('Validator', ('pubkey', B48), ('withdrawal_credentials', B32), ('effective_balance', u), ('slashed', Bool()),
           ('activation_eligibility_epoch', u), ('activation_epoch', u), ('exit_epoch', u), ('withdrawable_epoch', u))
    c('BeaconState', ('genesis_time', u), ('genesis_validators_root', B32), ('slot', u), ('fork', S['Fork']), ('latest_block_header', bh),
      ('block_roots', Vec(B32, p['SLOTS_PER_HISTORICAL_ROOT'])), ('state_roots', Vec(B32, p['SLOTS_PER_HISTORICAL_ROOT'])),
      ('historical_roots', Lst(B32, 2**24)), ('eth1_data', e1), ('eth1_data_votes', Lst(e1, p['EPOCHS_PER_ETH1_VOTING_PERIOD'] * p['SLOTS_PER_EPOCH'])),
      ('eth1_deposit_index', u), ('validators', Lst(va, 2**40)), ('balances', Lst(u, 2**40)),
      ('randao_mixes', Vec(B32, p['EPOCHS_PER_HISTORICAL_VECTOR'])), ('slashings', Vec(u, p['EPOCHS_PER_SLASHINGS_VECTOR'])),
      ('previous_epoch_attestations', Lst(pa, 128 * p['SLOTS_PER_EPOCH'])), ('current_epoch_attestations', Lst(pa, 128 * p['SLOTS_PER_EPOCH'])),
      ('justification_bits', BitV(4)), ('previous_justified_checkpoint', cp), ('current_justified_checkpoint', cp), ('finalized_checkpoint', cp))
    return S
