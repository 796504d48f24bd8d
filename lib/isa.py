"""Which instruction set extensions a routine needs: every instruction of every routine it can reach, classified from the disassembly."""
import os, re
from vasm import asm
from . import common as C, sha

BASE = set('''add adc and bswap bt call cmp dec div endbr64 imul inc jmp lea mov movabs movsx movsxd movzx mul neg nop nopw nopl not or pop push ret rol ror
sar sbb sete setne shl shld shr shrd sub test ud2 xchg xor leave cdqe cqo int3 hlt
movd movq movups movaps movdqa movdqu movapd movupd paddd paddq pand pandn por pxor pslld psrld psllq psrlq psrldq pslldq pshufd pshuflw pshufhw punpckldq punpckhdq
punpcklqdq punpckhqdq shufps shufpd xorps andps orps unpcklps unpckhps movlps movhps movlhps movhlps psubd psubq pcmpeqd pcmpgtd'''.split())
SSSE3 = {'pshufb', 'palignr', 'phaddd', 'pabsd', 'psignd'}
SSE41 = {'pblendw', 'pinsrd', 'pinsrq', 'pextrd', 'pextrq', 'blendps', 'blendvps', 'pblendvb', 'pmulld', 'ptest', 'pminud', 'pmaxud', 'packusdw'}
BMI1 = {'andn', 'bextr', 'blsi', 'blsr', 'blsmsk'}
BMI2 = {'rorx', 'shlx', 'shrx', 'sarx', 'bzhi', 'mulx', 'pdep', 'pext'}
AVX2X = {'vinserti128', 'vextracti128', 'vperm2i128', 'vpermq', 'vpermd', 'vpblendd', 'vbroadcasti128', 'vpbroadcastd', 'vpbroadcastq', 'vpsllvd', 'vpsrlvd', 'vpsllvq', 'vpsrlvq', 'vpgatherdd', 'vpsravd'}
AVXF = {'vmovdqa', 'vmovdqu', 'vperm2f128', 'vinsertf128', 'vextractf128', 'vshufps', 'vshufpd', 'vxorps', 'vandps', 'vorps', 'vmovaps', 'vmovups', 'vpermilps', 'vpermilpd', 'vblendps',
        'vunpcklps', 'vunpckhps', 'vmovapd', 'vmovupd', 'vptest', 'vbroadcastss', 'vbroadcastf128', 'vblendpd', 'vlddqu', 'vmovntdq', 'vzeroall', 'vzeroupper'}


def need(i):
    """feature an instruction needs ('' = x86-64 base), or None when it is not known"""
    m = i.mn
    if any('zmm' in o or '{' in o for o in i.ops) or re.search(r'\bk[0-7]\b', ' '.join(i.ops)): return 'AVX512'
    if m.startswith('sha1') or m.startswith('sha256'): return 'SHA'
    if m in BMI1: return 'BMI1'
    if m in BMI2: return 'BMI2'
    if m in SSSE3: return 'SSSE3'
    if m in SSE41: return 'SSE4.1'
    if m in AVX2X: return 'AVX2'
    if m in AVXF: return 'AVX'
    if m.startswith('vp') or m in ('vmovd', 'vmovq'): return 'AVX2' if any('ymm' in o for o in i.ops) else 'AVX'
    if m in BASE or m.startswith('j') or m.startswith('cmov') or m.startswith('set'): return ''
    if m in ('movbe',): return 'MOVBE'
    if m == 'popcnt': return 'POPCNT'
    if m == 'lzcnt': return 'LZCNT'
    return None


def reach(objs, start):
    """instructions reachable from a symbol (through calls and jumps), or raises"""
    where = {}
    for o in objs:
        for n, (sec, off) in o.syms.items(): where.setdefault(n, (o, sec, off))
    if start not in where: raise C.CmdError('routine %s not found' % start)
    work = [where[start]]; seen = set(); out = []
    while work:
        o, sec, a = work.pop()
        if (id(o), sec, a) in seen: continue
        seen.add((id(o), sec, a))
        i = o.insns.get((sec, a))
        if i is None: raise C.CmdError('no instruction at %s+%x of %s' % (sec, a, o.path))
        out.append(i)
        nxt = [(o, sec, a + i.size)] if i.size else []
        if i.mn == 'ret': continue
        if i.mn in ('call', 'jmp') or i.mn.startswith('j'):
            if i.mn == 'jmp': nxt = []
            if i.reloc:
                s = i.reloc[2]
                if s in o.sections: nxt.append((o, s, i.reloc[3] + 4))
                elif s in where: nxt.append(where[s])
                else: raise C.CmdError('jump to unknown symbol ' + s)
            else:
                m = re.match(r'(?:0x)?([0-9a-f]+)$', i.ops[0])
                if not m: raise C.CmdError('indirect jump: ' + i.text)
                nxt.append((o, sec, int(m.group(1), 16)))
        work += nxt
    return out


def features(ck):
    """{backend: {feature: an instruction}} of the current tree"""
    objs, errs = sha.build_objs(ck.tmp)
    if errs: raise C.CmdError('backends do not build: %s' % errs)
    d = sha.demangled(objs['hasher'])
    os_ = [asm.Obj(p) for p in objs.values()]
    r = {}
    for b, s in (('portable', d.get(sha.SSE, '?')), ('AVX', 'sha256_4_avx'), ('AVX2', 'sha256_8_avx2'), ('SHA-NI', 'sha256_shani')):
        fs = {}
        for i in reach(os_, s):
            f = need(i)
            if f is None: f = '? (instruction %s)' % i.mn
            if f: fs.setdefault(f, i.text)
        r[b] = fs
    return r


# what a CPU that reports a feature also has
IMPLIED = {'portable': set(), 'AVX': {'AVX', 'SSSE3', 'SSE4.1', 'POPCNT'}, 'AVX2': {'AVX2', 'AVX', 'SSSE3', 'SSE4.1', 'POPCNT'}, 'SHA-NI': {'SHA', 'SSSE3', 'SSE4.1'}}
