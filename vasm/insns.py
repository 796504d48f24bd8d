"""Instruction semantics (Intel SDM), over 32-bit lanes in canonical form."""
import re
from . import terms as T
from .terms import Unsupported


def _imm(op): return int(op, 16) if op.startswith(('0x', '-0x')) else int(op, 0)


XR = re.compile(r'([xy])mm(\d+)$')
VEXT = 'AVX'


class Insns:
    # ---- operand access -------------------------------------------------------------------
    def vec(self, st, op, ins, lanes, aligned=False):
        m = XR.match(op)
        if m: return st.x[int(m.group(2))][:lanes]
        from .exec import Lin
        a = self.addr(st, op, ins)
        if aligned: self.align_ob(st, a, 4 * lanes)
        return self.load(st, a, lanes)

    def setvec(self, st, op, ins, v, vex, aligned=False):
        m = XR.match(op)
        if m:
            r = st.x[int(m.group(2))]
            n = list(v)
            if len(n) < 8:
                n += ([T.const(0)] * (8 - len(n))) if vex else r[len(n):]
            st.x[int(m.group(2))] = n
            return
        a = self.addr(st, op, ins)
        if aligned: self.align_ob(st, a, 4 * len(v))
        self.store(st, a, v)

    def opsize(self, op):
        r = self.regname(op)
        if r: return r[1]
        m = re.match(r'(\w+) PTR', op)
        if m: return {'QWORD': 64, 'DWORD': 32, 'XMMWORD': 128, 'YMMWORD': 256, 'BYTE': 8, 'WORD': 16}.get(m.group(1))
        return None

    def rd(self, st, op, ins, bits):
        """scalar operand -> Lin (64-bit integer / exact) or T term (32-bit data)"""
        from .exec import Lin
        r = self.regname(op)
        if r:
            if r[1] in (8, 16): raise Unsupported('partial register %s' % op)
            v = st.g[r[0]]
            if r[1] == 64: return v
            if isinstance(v, Lin):
                if v.s: return self.low32(st, v)
                return Lin(v.c & 0xffffffff)
            return v
        if '[' in op:
            a = self.addr(st, op, ins)
            if bits == 64:
                reg = self.region(st, a)
                if reg == 'stack':
                    l = self.stack_load(st, a, 2)
                    if all(isinstance(x, tuple) for x in l) and l[0][0] == 'lo' and l[1][0] == 'hi' and l[0][1] == l[1][1]: return l[0][1]
                    if any(isinstance(x, tuple) and x[0] in ('lo', 'hi') for x in l) or not st.data: return self.havoc64(st)
                    l = self.load(st, a, 2)
                else: l = self.load(st, a, 2)
                c0, c1 = (T.is_const(x) if x is not None else None for x in l)
                if c0 is not None and c1 is not None: return Lin(c0 | c1 << 32)
                if c1 == 0: return l[0]
                return self.havoc64(st)
            if bits == 32:
                t = self.load(st, a, 1)[0]
                if t is None: return None
                c = T.is_const(t)
                return Lin(c) if c is not None else t
            raise Unsupported('memory operand %s' % op)
        return Lin(_imm(op))

    def low32(self, st, v):
        """low 32 bits of a symbolic 64-bit value, as a fresh bounded symbol"""
        from .exec import sym, Lin
        if self.prove(st, self.zi(v) >= 0) == 'ok' and self.prove(st, self.zi(v) < (1 << 32)) == 'ok': return v
        n = self.newsym('lo'); q = self.newsym('q')
        self.zs(n); self.zs(q)
        self.defs = self.defs + [self.zs(n) >= 0, self.zs(n) < (1 << 32), self.zi(v) == self.zs(n) + (1 << 32) * self.zs(q)]
        return sym(n)

    def wr(self, st, op, ins, v):
        from .exec import Lin
        r = self.regname(op)
        if r:
            if r[1] == 64: st.g[r[0]] = v
            elif r[1] == 32:
                if isinstance(v, Lin):
                    v = Lin(v.c & 0xffffffff) if not v.s else self.low32(st, v)
                st.g[r[0]] = v
            else: raise Unsupported('partial register write')
            return
        bits = self.opsize(op)
        a = self.addr(st, op, ins)
        if bits == 64:
            reg = self.region(st, a)
            if reg == 'stack':
                if not isinstance(v, Lin): return self.stack_store(st, a, 8, [v, T.const(0)])
                return self.stack_store(st, a, 8, v)
            if isinstance(v, Lin) and not v.s: return self.store(st, a, [T.const(v.c), T.const(v.c >> 32)])
            if not isinstance(v, Lin): return self.store(st, a, [v, T.const(0)])
            return self.store(st, a, [self.garbage(st, 'pointer'), self.garbage(st, 'pointer')])
        if bits == 32:
            if isinstance(v, Lin):
                v = T.const(v.c) if not v.s else self.garbage(st, 'pointer32')
            return self.store(st, a, [v])
        raise Unsupported('store size %s' % op)

    def dt(self, st, v):
        """32-bit data term"""
        from .exec import Lin
        if v is None: return None
        if isinstance(v, Lin):
            if not v.s: return T.const(v.c)
            return self.garbage(st, 'pointer32')
        return v

    # ---- dispatch -------------------------------------------------------------------------
    def step(self, st, ins, work):
        mn = ins.mn
        nxt = (st.ip[0], ins.addr + ins.size)
        if mn[0] == 'j': return self.do_jump(st, ins, nxt, work)
        if mn in ('ret', 'retq'): 
            if st.cs: return self.inner_ret(st)
            return self.do_ret(st, ins)
        if mn == 'call': return self.do_call(st, ins, nxt, work)
        f = getattr(self, 'i_' + mn, None)
        if f is not None:
            f(st, ins)
        elif not self.vector(st, ins):
            raise Unsupported('instruction %s' % ins.text)
        st.ip = nxt

    def do_jump(self, st, ins, nxt, work):
        cc = ins.mn[1:]
        if ins.reloc:
            if cc == 'mp':   # tail call
                name = ins.reloc[2]
                sp = st.g['rsp']
                self.call(st, name, ins, work, tail=True)
                return self.do_ret(st, ins)
            raise Unsupported('conditional jump out of the routine')
        try: t = int(ins.ops[0], 16)
        except ValueError: raise Unsupported('indirect jump')
        target = (st.ip[0], t)
        if cc == 'mp':
            for nm, loc in self.o.syms.items():
                if loc == target and nm in self.contracts and not st.cs and (nm != self.symbol or st.steps > 1) and nm != self.symbol:
                    self.call(st, nm, ins, work, tail=True)
                    return self.do_ret(st, ins)
            st.ip = target; return
        self.branch(st, cc, target, nxt, work)

    def do_call(self, st, ins, nxt, work):
        from .exec import Lin, ladd
        name = None
        if ins.reloc: name = ins.reloc[2]
        if name is None or name in self.o.sections:
            try: t = int(ins.ops[0], 16) if name is None else ins.reloc[3] + 4
            except (ValueError, IndexError): raise Unsupported('indirect call')
            target = (st.ip[0], t)
            for nm, loc in self.o.syms.items():
                if loc == target and nm in self.contracts: name = nm; break
            else:
                # local helper without contract: execute it inline
                if len(st.cs) > 8: raise Unsupported('deep helper nesting')
                sp = ladd(st.g['rsp'], Lin(-8)); st.g['rsp'] = sp
                self.stack_store(st, sp, 8, Lin(0, (('ra.%x' % nxt[1], 1),)))
                self.zs('ra.%x' % nxt[1])
                st.cs.append((nxt, sp)); st.ip = target
                return
        if name not in self.contracts and name in self.o.syms:
            target = self.o.syms[name]
            sp = ladd(st.g['rsp'], Lin(-8)); st.g['rsp'] = sp
            self.stack_store(st, sp, 8, Lin(0, (('ra.%x' % nxt[1], 1),))); self.zs('ra.%x' % nxt[1])
            st.cs.append((nxt, sp)); st.ip = target
            return
        self.call(st, name, ins, work)
        st.ip = nxt

    def inner_ret(self, st):
        from .exec import Lin, ladd, Failure
        nxt, sp = st.cs.pop()
        if st.g['rsp'] != sp: raise Unsupported('helper returns with another stack pointer')
        ra = st.stk.get(sp.s, {}).get(sp.c)
        if not (isinstance(ra, tuple) and ra[0] == 'lo' and ra[1] == Lin(0, (('ra.%x' % nxt[1], 1),))): raise Unsupported('helper return address overwritten')
        st.g['rsp'] = ladd(sp, Lin(8)); st.ip = nxt

    # ---- scalar -----------------------------------------------------------------------------
    def i_nop(self, st, ins): pass
    i_nopw = i_nopl = i_endbr64 = i_xchg_nop = i_prefetcht0 = i_prefetchnta = i_prefetcht1 = i_lfence = i_mfence = i_sfence = i_nop

    def i_xchg(self, st, ins):
        a, b = ins.ops
        if a == b: return
        n = self.opsize(a) or 64
        x, y = self.rd(st, a, ins, n), self.rd(st, b, ins, n)
        self.wr(st, a, ins, y); self.wr(st, b, ins, x)

    def i_mov(self, st, ins):
        d, s = ins.ops
        n = self.opsize(d) or self.opsize(s)
        self.wr(st, d, ins, self.rd(st, s, ins, n))
    i_movabs = i_mov

    def i_movsxd(self, st, ins):
        from .exec import Lin
        d, s = ins.ops
        v = self.rd(st, s, ins, 32)
        if isinstance(v, Lin) and not v.s: self.wr(st, d, ins, Lin(v.c - (1 << 32) if v.c >> 31 & 1 else v.c))
        else: self.wr(st, d, ins, self.havoc64(st))

    def i_lea(self, st, ins):
        d, s = ins.ops
        n = self.opsize(d)
        if n == 64: self.wr(st, d, ins, self.addr(st, s, ins)); return
        # 32-bit lea as arithmetic on data
        e = re.match(r'.*\[(.*)\]$', s).group(1)
        acc = T.const(0)
        for tok in re.findall(r'[-+]?[^-+]+', e):
            sg = -1 if tok[0] == '-' else 1
            tok = tok.lstrip('+-')
            if tok.startswith('0x'): acc = T.add(acc, T.const(sg * int(tok, 16)))
            else:
                k = 1
                if '*' in tok: tok, k = tok.split('*'); k = int(k, 0)
                v = st.g.get(tok, st.g.get(__import__('vasm.exec').exec.R32.get(tok)))
                v = self.dt(st, v)
                if v is None: acc = None; break
                acc = T.add(acc, T.mulc(v, k))
        self.wr(st, d, ins, acc if acc is not None else self.bot(st))

    def bot(self, st): return None

    def arith(self, st, ins, sub):
        from .exec import Lin, ladd
        d, s = ins.ops
        n = self.opsize(d) or self.opsize(s)
        a, b = self.rd(st, d, ins, n), self.rd(st, s, ins, n)
        if isinstance(a, Lin) and isinstance(b, Lin):
            r = ladd(a, b, -1 if sub else 1)
            st.flags = ('cmp' if sub else 'add', n, a, b)
            self.wr(st, d, ins, r); return
        if n == 32:
            st.flags = None
            x, y = self.dt(st, a), self.dt(st, b)
            if x is None or y is None: self.wr(st, d, ins, None); return
            self.wr(st, d, ins, T.sub(x, y) if sub else T.add(x, y)); return
        if not st.data and (a is None or b is None): self.wr(st, d, ins, None); st.flags = None; return
        raise Unsupported('64-bit arithmetic on data: %s' % ins.text)

    def i_add(self, st, ins): self.arith(st, ins, False)
    def i_sub(self, st, ins): self.arith(st, ins, True)

    def i_cmp(self, st, ins):
        from .exec import Lin
        d, s = ins.ops
        n = self.opsize(d) or self.opsize(s)
        if n not in (32, 64): st.flags = None; return
        a, b = self.rd(st, d, ins, n), self.rd(st, s, ins, n)
        st.flags = ('cmp', n, a, b) if isinstance(a, Lin) and isinstance(b, Lin) else None

    def i_test(self, st, ins):
        from .exec import Lin
        d, s = ins.ops
        n = self.opsize(d) or self.opsize(s)
        if n not in (32, 64):
            # test on the low byte of a symbolic register
            r1, r2 = self.regname(d), self.regname(s)
            if r1 and isinstance(st.g[r1[0]], Lin):
                v = st.g[r1[0]]
                mask = None
                if r2 and r2[0] == r1[0]: mask = (1 << n) - 1
                elif not r2: mask = _imm(s) & ((1 << n) - 1)
                if mask is not None:
                    st.flags = ('res', 64, self.andmask(st, v, mask), True); return
            st.flags = None; return
        a, b = self.rd(st, d, ins, n), self.rd(st, s, ins, n)
        if isinstance(a, Lin) and a == b: st.flags = ('res', n, a, True)
        elif isinstance(a, Lin) and isinstance(b, Lin) and not b.s:
            st.flags = ('res', n, self.andmask(st, a, b.c & ((1 << n) - 1)), True)
        else: st.flags = None

    def incdec(self, st, ins, k):
        from .exec import Lin, ladd
        d = ins.ops[0]; n = self.opsize(d)
        a = self.rd(st, d, ins, n)
        if isinstance(a, Lin):
            r = ladd(a, Lin(k)); st.flags = ('res', n, r, False)
            self.wr(st, d, ins, r); return
        st.flags = None
        x = self.dt(st, a)
        self.wr(st, d, ins, T.add(x, T.const(k)) if x is not None else None)

    def i_inc(self, st, ins): self.incdec(st, ins, 1)
    def i_dec(self, st, ins): self.incdec(st, ins, -1)

    def i_neg(self, st, ins):
        from .exec import Lin, lmul
        d = ins.ops[0]; n = self.opsize(d); a = self.rd(st, d, ins, n)
        st.flags = None
        if isinstance(a, Lin): self.wr(st, d, ins, lmul(a, -1)); return
        x = self.dt(st, a); self.wr(st, d, ins, T.sub(T.const(0), x) if x is not None else None)

    def i_not(self, st, ins):
        from .exec import Lin, lmul, ladd
        d = ins.ops[0]; n = self.opsize(d); a = self.rd(st, d, ins, n)
        if isinstance(a, Lin): self.wr(st, d, ins, ladd(lmul(a, -1), Lin(-1))); return
        x = self.dt(st, a); self.wr(st, d, ins, T.not_(x) if x is not None else None)

    def andmask(self, st, v, m):
        """v & m for a symbolic integer and a mask of the form 2^k-1 or -2^k"""
        from .exec import Lin, sym, ladd
        if not v.s: return Lin(v.c & m)
        m &= (1 << 64) - 1
        low = (m + 1) & m == 0
        high = ((~m & ((1 << 64) - 1)) + 1) & (~m & ((1 << 64) - 1)) == 0
        if not low and not high: return self.havoc64(st)
        k = m.bit_length() if low else (~m & ((1 << 64) - 1)).bit_length()
        r, q = self.newsym('rem'), self.newsym('quo')
        self.zs(r); self.zs(q)
        self.defs = self.defs + [self.zs(r) >= 0, self.zs(r) < (1 << k), self.zi(v) == (1 << k) * self.zs(q) + self.zs(r)]
        return sym(r) if low else ladd(v, sym(r), -1)

    def logic(self, st, ins, op):
        from .exec import Lin
        d, s = ins.ops
        n = self.opsize(d) or self.opsize(s)
        if op == 'xor' and d == s:
            self.wr(st, d, ins, Lin(0)); st.flags = ('res', n, Lin(0), True); return
        a, b = self.rd(st, d, ins, n), self.rd(st, s, ins, n)
        if isinstance(a, Lin) and isinstance(b, Lin) and (n == 64 or (not a.s and not b.s) or op == 'and'):
            if not a.s and not b.s:
                m = (1 << n) - 1
                r = Lin({'and': a.c & b.c, 'or': a.c | b.c, 'xor': a.c ^ b.c}[op] & m)
            elif op == 'and' and not b.s: r = self.andmask(st, a, b.c & ((1 << n) - 1))
            elif op == 'and' and not a.s: r = self.andmask(st, b, a.c & ((1 << n) - 1))
            elif a == b: r = a
            else: r = self.havoc64(st)
            st.flags = ('res', n, r, True); self.wr(st, d, ins, r); return
        st.flags = None
        if n == 32:
            x, y = self.dt(st, a), self.dt(st, b)
            if x is None or y is None: self.wr(st, d, ins, None); return
            self.wr(st, d, ins, {'and': T.and_, 'or': T.or_, 'xor': T.xor}[op](x, y)); return
        if not st.data: self.wr(st, d, ins, None); return
        raise Unsupported('64-bit logic on data: %s' % ins.text)

    def i_and(self, st, ins): self.logic(st, ins, 'and')
    def i_or(self, st, ins): self.logic(st, ins, 'or')
    def i_xor(self, st, ins): self.logic(st, ins, 'xor')

    def i_andn(self, st, ins):
        d, a, b = ins.ops
        n = self.opsize(d)
        x, y = self.rd(st, a, ins, n), self.rd(st, b, ins, n)
        if n != 32: raise Unsupported(ins.text)
        st.flags = None
        x, y = self.dt(st, x), self.dt(st, y)
        self.wr(st, d, ins, None if x is None or y is None else T.andn(x, y))

    def sh(self, st, ins, f, kind):
        from .exec import Lin, lmul, sym
        d = ins.ops[0]; n = self.opsize(d)
        k = _imm(ins.ops[1]) if len(ins.ops) > 1 and not self.regname(ins.ops[1]) else (1 if len(ins.ops) == 1 else None)
        if k is None: raise Unsupported('variable shift')
        a = self.rd(st, d, ins, n)
        if isinstance(a, Lin):
            if kind == 'shl': r = lmul(a, 1 << k)
            elif kind == 'shr' and a.s:
                q, rr = self.newsym('quo'), self.newsym('rem')
                self.zs(q); self.zs(rr)
                u = self.wrap(st, a, n, False)
                self.defs = self.defs + [self.zs(rr) >= 0, self.zs(rr) < (1 << k), u == (1 << k) * self.zs(q) + self.zs(rr)]
                r = sym(q)
            elif kind == 'sar' and a.s:
                q, rr = self.newsym('quo'), self.newsym('rem')
                self.zs(q); self.zs(rr)
                u = self.wrap(st, a, n, True)
                self.defs = self.defs + [self.zs(rr) >= 0, self.zs(rr) < (1 << k), u == (1 << k) * self.zs(q) + self.zs(rr)]
                r = sym(q)
            elif not a.s:
                m = (1 << n) - 1; c = a.c & m
                if kind == 'shr': r = Lin(c >> k)
                elif kind == 'sar': r = Lin(((c - (1 << n)) if c >> (n - 1) else c) >> k)
                else: 
                    k %= n
                    k2 = k if kind == 'ror' else (n - k) % n
                    r = Lin(((c >> k2) | (c << (n - k2))) & m)
            else: r = self.havoc64(st)
            st.flags = ('res', n, r, False) if kind in ('shl', 'shr', 'sar') else None
            self.wr(st, d, ins, r); return
        st.flags = None
        if n != 32:
            if not st.data: self.wr(st, d, ins, None); return
            # zero-extended 32-bit data in a 64-bit register
            if kind == 'shr': self.wr(st, d, ins, T.shr(a, k)); return
            raise Unsupported('64-bit shift of data')
        self.wr(st, d, ins, None if a is None else f(a, k))

    def i_shl(self, st, ins): self.sh(st, ins, T.shl, 'shl')
    i_sal = i_shl
    def i_shr(self, st, ins): self.sh(st, ins, T.shr, 'shr')
    def i_sar(self, st, ins):
        def f(a, k): raise Unsupported('arithmetic shift of data')
        self.sh(st, ins, f, 'sar')
    def i_ror(self, st, ins): self.sh(st, ins, T.ror, 'ror')
    def i_rol(self, st, ins): self.sh(st, ins, T.rol, 'rol')

    def i_rorx(self, st, ins):
        d, s, k = ins.ops
        a = self.dt(st, self.rd(st, s, ins, self.opsize(d)))
        if self.opsize(d) != 32: raise Unsupported(ins.text)
        self.wr(st, d, ins, None if a is None else T.ror(a, _imm(k)))

    def shxd(self, st, ins, left):
        d, s, k = ins.ops
        if self.opsize(d) != 32: raise Unsupported(ins.text)
        k = _imm(k) & 31
        a, b = self.dt(st, self.rd(st, d, ins, 32)), self.dt(st, self.rd(st, s, ins, 32))
        st.flags = None
        if a is None or b is None: self.wr(st, d, ins, None); return
        if k == 0: return
        self.wr(st, d, ins, T.xor(T.shl(a, k), T.shr(b, 32 - k)) if left else T.xor(T.shr(a, k), T.shl(b, 32 - k)))

    def i_shld(self, st, ins): self.shxd(st, ins, True)
    def i_shrd(self, st, ins): self.shxd(st, ins, False)

    def i_bswap(self, st, ins):
        d = ins.ops[0]
        if self.opsize(d) != 32: raise Unsupported(ins.text)
        a = self.dt(st, self.rd(st, d, ins, 32))
        self.wr(st, d, ins, None if a is None else T.bswap(a))

    def i_movbe(self, st, ins):
        d, s = ins.ops
        n = self.opsize(d)
        if n != 32: raise Unsupported(ins.text)
        a = self.dt(st, self.rd(st, s, ins, 32))
        self.wr(st, d, ins, None if a is None else T.bswap(a))

    def i_push(self, st, ins):
        from .exec import Lin, ladd
        v = self.rd(st, ins.ops[0], ins, 64)
        sp = ladd(st.g['rsp'], Lin(-8)); st.g['rsp'] = sp
        self.stack_store(st, sp, 8, v if isinstance(v, Lin) else [v, T.const(0)])

    def i_pop(self, st, ins):
        from .exec import Lin, ladd
        sp = st.g['rsp']
        v = self.rd(st, 'QWORD PTR [rsp]', ins, 64)
        st.g['rsp'] = ladd(sp, Lin(8))
        self.wr(st, ins.ops[0], ins, v)

    def i_leave(self, st, ins):
        from .exec import Lin, ladd
        st.g['rsp'] = st.g['rbp']
        v = self.rd(st, 'QWORD PTR [rsp]', ins, 64)
        st.g['rsp'] = ladd(st.g['rsp'], Lin(8)); st.g['rbp'] = v

    def i_vzeroupper(self, st, ins):
        for i in range(16): st.x[i] = st.x[i][:4] + [T.const(0)] * 4

    def i_vzeroall(self, st, ins):
        for i in range(16): st.x[i] = [T.const(0)] * 8

    # ---- vector -----------------------------------------------------------------------------
    def vector(self, st, ins):
        mn = ins.mn
        vex = mn[0] == 'v'
        b = mn[1:] if vex else mn
        ops = ins.ops
        lanes = 8 if any(o.startswith(('ymm', 'YMMWORD')) for o in ops) else 4
        D = st.data
        Z = T.const(0)
        legacy_align = not vex     # non-VEX memory source operands must be 16-byte aligned

        def V(o, l=None, al=None): return self.vec(st, o, ins, l or lanes, legacy_align if al is None else al)

        def put(v, al=False): self.setvec(st, ops[0], ins, v if D else [None] * len(v), vex, al)

        def bad(*vs): return not D or any(x is None for v in vs for x in v)

        def two():
            """(first source, second source)"""
            if vex: return V(ops[1]), V(ops[2])
            return V(ops[0]), V(ops[1])

        if b in ('movdqa', 'movaps', 'movapd', 'movntdq', 'movdqa32', 'movdqa64'):
            self.setvec(st, ops[0], ins, V(ops[1], al=True), vex, True); return True
        if b in ('movdqu', 'movups', 'movupd', 'lddqu'):
            self.setvec(st, ops[0], ins, V(ops[1], al=False), vex, False); return True
        if b in ('movd', 'movq'):
            n = 1 if b == 'movd' else 2
            x0 = XR.match(ops[0])
            if x0:
                if XR.match(ops[1]): v = V(ops[1], 4)[:n]
                elif self.regname(ops[1]):
                    from .exec import Lin
                    g = self.rd(st, ops[1], ins, 32 * n)
                    v = [self.dt(st, g)] + ([Z] if n == 2 else [])
                    if n == 2 and isinstance(g, Lin): v = [T.const(g.c), T.const(g.c >> 32)] if not g.s else [self.garbage(st, 'p'), self.garbage(st, 'p')]
                else: v = self.load(st, self.addr(st, ops[1], ins), n)
                self.setvec(st, ops[0], ins, list(v) + [Z] * (4 - n), vex); return True
            v = V(ops[1], 4)[:n]
            r = self.regname(ops[0])
            if r:
                if n == 1: self.wr(st, ops[0], ins, v[0])
                else: self.wr(st, ops[0], ins, v[0] if D and T.is_const(v[1]) == 0 else self.havoc64(st))
            else: self.store(st, self.addr(st, ops[0], ins), v)
            return True
        simple = {'paddd': T.add, 'psubd': T.sub, 'pxor': T.xor, 'pand': T.and_, 'por': T.or_, 'pandn': T.andn,
                  'xorps': T.xor, 'andps': T.and_, 'orps': T.or_, 'andnps': T.andn, 'xorpd': T.xor, 'andpd': T.and_, 'orpd': T.or_, 'andnpd': T.andn}
        if b in simple:
            same = (ops[1] == ops[2]) if vex else (ops[0] == ops[1])
            if same and b in ('pxor', 'xorps', 'xorpd', 'psubd'): 
                self.setvec(st, ops[0], ins, [Z] * lanes, vex); return True
            x, y = two()
            put([None] * lanes if bad(x, y) else [simple[b](p, q) for p, q in zip(x, y)]); return True
        if b in ('pslld', 'psrld', 'psrlq', 'psllq', 'pslldq', 'psrldq'):
            src = ops[1] if vex else ops[0]
            cnt = ops[2] if vex else ops[1]
            if XR.match(cnt) or '[' in cnt: raise Unsupported(ins.text)
            k = _imm(cnt); x = V(src)
            if bad(x): put([None] * lanes); return True
            if b == 'pslld': r = [T.shl(p, k) for p in x]
            elif b == 'psrld': r = [T.shr(p, k) for p in x]
            elif b == 'psrlq':
                r = []
                for j in range(0, lanes, 2): r += shr64(x[j], x[j + 1], k)
            elif b == 'psllq':
                r = []
                for j in range(0, lanes, 2): r += shl64(x[j], x[j + 1], k)
            else:
                r = []
                for j in range(0, lanes, 4):
                    by = bytes_of(x[j:j + 4])
                    by = (by[k:] + [None] * min(k, 16))[:16] if b == 'psrldq' else ([None] * min(k, 16) + by)[:16]
                    r += words_of(by)
            put(r); return True
        if b == 'pshufd':
            x = V(ops[1]); k = _imm(ops[2])
            put([None] * lanes if bad(x) else [x[(j & 4) + (k >> (2 * (j & 3)) & 3)] for j in range(lanes)]); return True
        if b == 'shufps':
            if vex: x, y, k = V(ops[1]), V(ops[2]), _imm(ops[3])
            else: x, y, k = V(ops[0]), V(ops[1]), _imm(ops[2])
            if bad(x, y): put([None] * lanes); return True
            r = []
            for j in range(0, lanes, 4):
                r += [x[j + (k & 3)], x[j + (k >> 2 & 3)], y[j + (k >> 4 & 3)], y[j + (k >> 6 & 3)]]
            put(r); return True
        if b == 'pshufb':
            x, m = two()
            if bad(x, m): put([None] * lanes); return True
            r = []
            for j in range(0, lanes, 4):
                by = bytes_of(x[j:j + 4]); sel = []
                for w in m[j:j + 4]:
                    c = T.is_const(w)
                    if c is None: raise Unsupported('pshufb with symbolic control')
                    sel += [c >> (8 * q) & 255 for q in range(4)]
                r += words_of([None if s & 0x80 else by[s & 15] for s in sel])
            put(r); return True
        if b == 'palignr':
            if vex: x, y, k = V(ops[1]), V(ops[2]), _imm(ops[3])
            else: x, y, k = V(ops[0]), V(ops[1]), _imm(ops[2])
            if bad(x, y): put([None] * lanes); return True
            r = []
            for j in range(0, lanes, 4):
                by = bytes_of(y[j:j + 4]) + bytes_of(x[j:j + 4]) + [None] * 32
                r += words_of(by[min(k, 32):min(k, 32) + 16])
            put(r); return True
        if b in ('pblendw', 'blendps', 'pblendd'):
            if vex: x, y, k = V(ops[1]), V(ops[2]), _imm(ops[3])
            else: x, y, k = V(ops[0]), V(ops[1]), _imm(ops[2])
            if bad(x, y): put([None] * lanes); return True
            r = []
            for j in range(lanes):
                if b == 'pblendw':
                    lo, hi = k >> (2 * (j & 3)) & 1, k >> (2 * (j & 3) + 1) & 1
                    a = y[j] if lo else x[j]; c = y[j] if hi else x[j]
                    r.append(a if a is c else T.xor(T.shift(a, 0, 0xffff), T.shift(c, 0, 0xffff0000)))
                else: r.append(y[j] if k >> j & 1 else x[j])
            put(r); return True
        if b in ('punpckldq', 'punpckhdq', 'punpcklqdq', 'punpckhqdq', 'unpcklps', 'unpckhps', 'unpcklpd', 'unpckhpd'):
            x, y = two()
            if bad(x, y): put([None] * lanes); return True
            r = []
            for j in range(0, lanes, 4):
                p, q = x[j:j + 4], y[j:j + 4]
                r += {'punpckldq': [p[0], q[0], p[1], q[1]], 'unpcklps': [p[0], q[0], p[1], q[1]],
                      'punpckhdq': [p[2], q[2], p[3], q[3]], 'unpckhps': [p[2], q[2], p[3], q[3]],
                      'punpcklqdq': [p[0], p[1], q[0], q[1]], 'unpcklpd': [p[0], p[1], q[0], q[1]],
                      'punpckhqdq': [p[2], p[3], q[2], q[3]], 'unpckhpd': [p[2], p[3], q[2], q[3]]}[b]
            put(r); return True
        if b in ('inserti128', 'insertf128'):
            x = V(ops[1], 8); y = V(ops[2], 4, False); k = _imm(ops[3]) & 1
            put([None] * 8 if bad(x, y) else (y + x[4:] if k == 0 else x[:4] + y)); return True
        if b in ('extracti128', 'extractf128'):
            x = V(ops[1], 8); k = _imm(ops[2]) & 1
            put([None] * 4 if bad(x) else x[4 * k:4 * k + 4]); return True
        if b in ('perm2i128', 'perm2f128'):
            x, y = V(ops[1], 8), V(ops[2], 8); k = _imm(ops[3])
            if bad(x, y): put([None] * 8); return True
            h = [x[:4], x[4:], y[:4], y[4:]]
            put(([Z] * 4 if k & 8 else h[k & 3]) + ([Z] * 4 if k & 0x80 else h[k >> 4 & 3])); return True
        if b in ('broadcasti128', 'broadcastf128'):
            y = V(ops[1], 4, False); put([None] * 8 if bad(y) else y + y); return True
        if b in ('pbroadcastd', 'broadcastss'):
            y = V(ops[1], 4)[:1] if XR.match(ops[1]) else self.load(st, self.addr(st, ops[1], ins), 1)
            lanes2 = 8 if ops[0].startswith('y') else 4
            put([None] * lanes2 if bad(y) else [y[0]] * lanes2); return True
        if b == 'permq':
            x = V(ops[1], 8); k = _imm(ops[2])
            if bad(x): put([None] * 8); return True
            r = []
            for j in range(4):
                s = k >> (2 * j) & 3; r += [x[2 * s], x[2 * s + 1]]
            put(r); return True
        if b == 'pinsrd':
            if vex: x, s, k = V(ops[1], 4), ops[2], _imm(ops[3])
            else: x, s, k = V(ops[0], 4), ops[1], _imm(ops[2])
            y = self.dt(st, self.rd(st, s, ins, 32))
            if bad(x, [y]): put([None] * 4); return True
            x = list(x); x[k & 3] = y; put(x); return True
        if b == 'pextrd':
            x = V(ops[1], 4); self.wr(st, ops[0], ins, x[_imm(ops[2]) & 3]); return True
        # ---- SHA extensions (SDM vol. 2)
        if mn == 'sha256rnds2':
            s1, s2, wk = V(ops[0], 4), V(ops[1], 4), st.x[0][:4]
            if bad(s1, s2, wk[:2]): put([None] * 4); return True
            A, B, C, Dd, E, F, G, H = s2[3], s2[2], s1[3], s1[2], s2[1], s2[0], s1[1], s1[0]
            v = [A, B, C, Dd, E, F, G, H]
            v = T.round_(v, wk[0]); v = T.round_(v, wk[1])
            put([v[5], v[4], v[1], v[0]]); return True
        if mn == 'sha256msg1':
            x, y = V(ops[0], 4), V(ops[1], 4)
            if bad(x, y[:1]): put([None] * 4); return True
            w = x + [y[0]]
            put([T.add(w[j], T.s0(w[j + 1])) for j in range(4)]); return True
        if mn == 'sha256msg2':
            x, y = V(ops[0], 4), V(ops[1], 4)
            if bad(x, y): put([None] * 4); return True
            w16 = T.add(x[0], T.s1(y[2])); w17 = T.add(x[1], T.s1(y[3]))
            w18 = T.add(x[2], T.s1(w16)); w19 = T.add(x[3], T.s1(w17))
            put([w16, w17, w18, w19]); return True
        return False


def bytes_of(ws):
    """16 byte references (word, byte index)"""
    return [(w, q) for w in ws for q in range(4)]


def words_of(by):
    out = []
    for j in range(0, 16, 4):
        b = by[j:j + 4]
        if all(x is not None and x[0] is b[0][0] and x[1] == q for q, x in enumerate(b) if b[0] is not None) and b[0] is not None:
            out.append(b[0][0]); continue
        r = T.const(0)
        for q, x in enumerate(b):
            if x is None: continue
            w, p = x
            r = T.xor(r, T.shift(w, 8 * (p - q), 0xff << (8 * q)))
        out.append(r)
    return out


def shr64(lo, hi, k):
    if k == 0: return [lo, hi]
    if k < 32: return [T.xor(T.shr(lo, k), T.shl(hi, 32 - k)), T.shr(hi, k)]
    if k < 64: return [T.shr(hi, k - 32), T.const(0)]
    return [T.const(0), T.const(0)]


def shl64(lo, hi, k):
    if k == 0: return [lo, hi]
    if k < 32: return [T.shl(lo, k), T.xor(T.shl(hi, k), T.shr(lo, 32 - k))]
    if k < 64: return [T.const(0), T.shl(lo, k - 32)]
    return [T.const(0), T.const(0)]
