"""Reader for LLVM 18 textual IR as clang writes it: types with their layout, globals, functions (bodies parsed on demand)."""
import re, subprocess


class Unsupported(Exception): pass


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[\w.$-]+))
 | (?P<glo>@(?:"[^"]*"|[\w.$-]+))
 | (?P<md>!(?:"[^"]*"|[\w.$-]+)?)
 | (?P<att>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![\w]))
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<com>\$(?:"[^"]*"|[\w.$-]+))
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<p>[\[\](){}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise Unsupported('cannot tokenize IR: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup; v = m.group(k)
        out.append((k, v))
    return out


def unq(s):
    """%"a b" -> a b"""
    s = s[1:]
    return s[1:-1] if s.startswith('"') else s


ATTRS = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly readnone writeonly returned immarg nofree noreturn swiftself
 dso_local inbounds nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc disjoint nneg
 dead_on_unwind writable allocptr allocalign swifterror nest
 tail musttail notail unnamed_addr local_unnamed_addr volatile atomic hidden protected thread_local constant external internal
 linkonce_odr linkonce weak weak_odr private common appending available_externally fastcc coldcc ccc extern_weak default'''.split())


class P:
    def __init__(s, toks): s.t = toks; s.i = 0

    def peek(s): return s.t[s.i][1] if s.i < len(s.t) else None
    def kind(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1; return v
    def eat(s, v):
        if s.peek() == v: s.i += 1; return True
        return False
    def need(s, v):
        if not s.eat(v): raise Unsupported('IR syntax: expected %s got %s in %s' % (v, s.peek(), ' '.join(x[1] for x in s.t[:40])))

    def type(s):
        k, v = s.next()
        if k == 'word':
            if v == 'ptr': t = ('ptr',)
            elif v == 'void': t = ('void',)
            elif re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
            elif v in ('double', 'float', 'half', 'x86_fp80', 'fp128'): t = ('f', v)
            elif v == 'label': t = ('lbl',)
            elif v == 'metadata': t = ('md',)
            elif v == 'token': t = ('tok',)
            elif v == 'opaque': t = ('opaque',)
            else: raise Unsupported('type ' + v)
        elif v == '[':
            n = int(s.next()[1]); s.need('x'); e = s.type(); s.need(']'); t = ('arr', n, e)
        elif v == '{':
            fs = []
            while not s.eat('}'):
                fs.append(s.type()); s.eat(',')
            t = ('st', tuple(fs), False)
        elif v == '<':
            if s.eat('{'):
                fs = []
                while not s.eat('}'):
                    fs.append(s.type()); s.eat(',')
                s.need('>'); t = ('st', tuple(fs), True)
            else:
                n = int(s.next()[1]); s.need('x'); e = s.type(); s.need('>'); t = ('vec', n, e)
        elif k == 'loc': t = ('nm', unq(v))
        else: raise Unsupported('type token ' + v)
        while s.peek() == '(':  # function type
            s.need('('); ps = []
            while not s.eat(')'):
                if s.peek() == '...': s.next()
                else: ps.append(s.type())
                s.eat(',')
            t = ('fn', t, tuple(ps))
        return t

    def attrs(s):
        while True:
            v = s.peek(); k = s.kind()
            if k == 'att': s.next()
            elif k == 'word' and v in ATTRS: s.next()
            elif k == 'word' and v in ('align', 'alignstack'):
                s.next()
                if s.eat('('): s.next(); s.need(')')
                else: s.next()
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'addrspace', 'range', 'allocsize', 'memory', 'captures', 'nofpclass'):
                s.next(); s.skip_parens()
            elif k == 'word' and v in ('sret', 'byval', 'byref', 'inalloca', 'elementtype', 'preallocated'):
                s.next(); s.skip_parens()
            else: return

    def skip_parens(s):
        s.need('('); d = 1
        while d:
            v = s.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1

    def value(s, t):
        """operand of type t"""
        k, v = s.next()
        if k == 'loc': return ('r', unq(v))
        if k == 'glo': return ('g', unq(v))
        if k == 'num':
            if t[0] == 'f': return ('fp', v)
            return ('c', int(v) & ((1 << t[1]) - 1) if t[0] == 'i' else int(v))
        if k == 'hex': return ('fp', v)
        if v == 'true': return ('c', 1)
        if v == 'false': return ('c', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if k == 'str': return ('str', cstr(v))
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and s.peek() == '{':
                s.next(); r = s.aggr('}'); s.need('>'); return ('agg', r)
            return ('agg', s.aggr(close))
        if v == 'getelementptr':
            s.attrs()
            if s.peek() == 'inrange': s.next(); s.skip_parens()
            s.need('('); bt = s.type(); s.need(','); s.attrs(); pt = s.type(); b = s.value(pt); idx = []
            while s.eat(','):
                if s.peek() == 'inrange': s.next()
                it = s.type(); idx.append((it, s.value(it)))
            s.need(')')
            return ('ce', 'gep', bt, b, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.need('('); ft = s.type(); o = s.value(ft); s.need('to'); tt = s.type(); s.need(')')
            return ('ce', v, ft, o, tt)
        if v in ('add', 'sub', 'mul', 'xor'):
            s.attrs(); s.need('('); at = s.type(); a = s.value(at); s.need(','); bt = s.type(); b = s.value(bt); s.need(')')
            return ('ce', v, at, a, b)
        if v == 'dso_local_equivalent': return s.value(t)
        raise Unsupported('operand ' + str(v))

    def aggr(s, close):
        r = []
        while not s.eat(close):
            t = s.type(); r.append((t, s.value(t))); s.eat(',')
        return r

    def tv(s):
        t = s.type(); s.attrs(); return t, s.value(t)


def cstr(v):
    b = bytearray(); i = 2
    while i < len(v) - 1:
        if v[i] == '\\':
            if v[i + 1] == '\\': b.append(92); i += 2
            else: b.append(int(v[i + 1:i + 3], 16)); i += 3
        else: b.append(ord(v[i])); i += 1
    return bytes(b)


class Fn:
    __slots__ = ('name', 'dem', 'ret', 'params', 'lines', 'blocks', 'order', 'mod', 'loops', 'linkage', 'nounwind', 'deref')

    def parse(f):
        if f.blocks is not None: return
        f.blocks = {}; f.order = []
        cur = None; buf = None
        L = f.lines; i = 0
        # labels: the first block may be unlabeled
        ins = []
        name = None
        while i < len(L):
            l = L[i]; i += 1
            st = l.strip()
            if not st or st.startswith(';'): continue
            m = re.match(r'^(?:"([^"]*)"|([\w.$-]+)):', l)
            if m and not l.startswith(' '):
                if name is not None: f.blocks[name] = ins
                name = m.group(1) or m.group(2); ins = []; f.order.append(name); continue
            if name is None: name = '0'; f.order.append(name)
            # multi-line: switch and invoke
            if st.startswith('switch') or re.match(r'%[^ ]+ = switch', st):
                while not st.rstrip().endswith(']'):
                    st += ' ' + L[i].strip(); i += 1
            elif 'invoke ' in st.split('(')[0]:
                while ' unwind label ' not in st:
                    st += ' ' + L[i].strip(); i += 1
            elif 'landingpad' in st:
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)', L[i]):
                    st += ' ' + L[i].strip(); i += 1
            st = re.sub(r', !\w+(\.\w+)* !\d+', '', st)
            st = re.sub(r', !srcloc !\d+', '', st)
            ins.append(st)
        if name is not None: f.blocks[name] = ins
        for n in f.blocks: f.blocks[n] = [(parse_ins(x), x) for x in f.blocks[n]]
        f.find_loops()

    def succs(f, b):
        ins = f.blocks[b][-1][0]
        k = ins[0]
        if k == 'br': return [ins[1]]
        if k == 'cbr': return [ins[2], ins[3]]
        if k == 'switch': return [ins[3]] + [x[1] for x in ins[4]]
        if k == 'invoke': return [ins[5], ins[6]]
        return []

    def find_loops(f):
        """natural loops: header -> set of blocks"""
        entry = f.order[0]
        # dominators (simple iterative)
        succ = {b: f.succs(b) for b in f.order}
        pred = {b: [] for b in f.order}
        for b in f.order:
            for s in succ[b]: pred[s].append(b)
        # reachable
        seen = [entry]; ss = {entry}
        for b in seen:
            for s in succ[b]:
                if s not in ss: ss.add(s); seen.append(s)
        idx = {}
        order = []
        st = [(entry, iter(succ[entry]))]; vis = {entry}
        while st:
            b, it = st[-1]
            for s in it:
                if s not in vis: vis.add(s); st.append((s, iter(succ[s]))); break
            else: order.append(b); st.pop()
        order.reverse()
        for i, b in enumerate(order): idx[b] = i
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                n = None
                for p in pred[b]:
                    if p in idom:
                        if n is None: n = p
                        else:
                            a, c = p, n
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            n = a
                if idom.get(b) != n: idom[b] = n; ch = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == idom[b]: return False
                b = idom[b]
        f.loops = {}
        for b in order:
            for s in succ[b]:
                if s in idx and dom(s, b):
                    body = f.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x); work += [p for p in pred[x] if p in idx]


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
FBIN = set('fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext ptrtoint inttoptr bitcast fptoui fptosi uitofp sitofp fpext fptrunc addrspacecast'.split())


def parse_ins(st):
    p = P(tokenize(st))
    dst = None
    if p.kind() == 'loc' and p.t[1][1] == '=':
        dst = unq(p.next()[1]); p.next()
    k, op = p.next()
    while op in ('tail', 'musttail', 'notail'): k, op = p.next()
    if op == 'alloca':
        p.eat('inalloca'); t = p.type(); n = None
        if p.eat(','):
            if p.peek() != 'align': nt = p.type(); n = p.value(nt)
        return ('alloca', dst, t, n)
    if op == 'load':
        p.attrs(); t = p.type(); p.need(','); pt = p.type(); return ('load', dst, t, p.value(pt))
    if op == 'store':
        p.attrs(); t = p.type(); v = p.value(t); p.need(','); pt = p.type(); return ('store', t, v, p.value(pt))
    if op == 'getelementptr':
        inb = False
        while p.peek() in ('inbounds', 'nuw', 'nusw'): inb = inb or p.peek() == 'inbounds'; p.next()
        bt = p.type(); p.need(','); pt = p.type(); b = p.value(pt); idx = []
        while p.eat(','): it = p.type(); idx.append((it, p.value(it)))
        return ('gep', dst, bt, b, idx, inb)
    if op in BIN:
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.add(p.next()[1])
        t = p.type(); a = p.value(t); p.need(','); return ('bin', dst, op, t, a, p.value(t), fl)
    if op in FBIN or op == 'fneg':
        p.attrs(); t = p.type(); a = p.value(t); b = None
        if p.eat(','): b = p.value(t)
        return ('fbin', dst, op, t, a, b)
    if op == 'icmp':
        pr = p.next()[1]; t = p.type(); a = p.value(t); p.need(','); return ('icmp', dst, pr, t, a, p.value(t))
    if op == 'fcmp':
        p.attrs(); pr = p.next()[1]; t = p.type(); a = p.value(t); p.need(','); return ('fcmp', dst, pr, t, a, p.value(t))
    if op in CAST:
        p.attrs(); ft = p.type(); v = p.value(ft); p.need('to'); return ('cast', dst, op, ft, v, p.type())
    if op == 'select':
        p.attrs(); ct = p.type(); c = p.value(ct); p.need(','); t = p.type(); a = p.value(t); p.need(','); t2 = p.type(); return ('select', dst, c, t, a, p.value(t2))
    if op == 'phi':
        p.attrs(); t = p.type(); inc = []
        while True:
            p.need('['); v = p.value(t); p.need(','); l = unq(p.next()[1]); p.need(']'); inc.append((v, l))
            if not p.eat(','): break
        return ('phi', dst, t, inc)
    if op == 'br':
        if p.eat('label'): return ('br', unq(p.next()[1]))
        t = p.type(); c = p.value(t); p.need(','); p.need('label'); a = unq(p.next()[1]); p.need(','); p.need('label'); return ('cbr', c, a, unq(p.next()[1]))
    if op == 'switch':
        t = p.type(); v = p.value(t); p.need(','); p.need('label'); d = unq(p.next()[1]); p.need('['); cs = []
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.need(','); p.need('label'); cs.append((cv, unq(p.next()[1])))
        return ('switch', t, v, d, cs)
    if op == 'ret':
        t = p.type(); return ('ret', t, None if t == ('void',) else p.value(t))
    if op == 'unreachable': return ('unreachable',)
    if op in ('call', 'invoke'):
        p.attrs(); rt = p.type()
        if rt[0] == 'fn': rt = rt[1]
        p.attrs()
        if p.peek() == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
            tx = p.next()[1]; p.need(','); callee = ('asm', unq2(tx), unq2(p.next()[1]))
        else: callee = p.value(('ptr',))
        p.need('('); args = []
        while not p.eat(')'):
            t = p.type()
            if t == ('md',):
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    v = p.next()[1]
                    d += v in '([{' if len(v) == 1 else 0
                    d -= v in ')]}' if len(v) == 1 else 0
                args.append((t, ('undef',)))
            else:
                p.attrs(); args.append((t, p.value(t)))
            p.eat(',')
        if op == 'call': return ('call', dst, rt, callee, args)
        while p.kind() == 'att': p.next()
        p.need('to'); p.need('label'); a = unq(p.next()[1]); p.need('unwind'); p.need('label'); b = unq(p.next()[1])
        return ('invoke', dst, rt, callee, args, a, b)
    if op == 'landingpad':
        t = p.type(); cl = []
        while p.i < len(p.t):
            w = p.next()[1]
            if w == 'cleanup': cl.append(('cleanup',))
            else: ct = p.type(); cl.append((w, p.value(ct)))
        return ('landingpad', dst, t, cl)
    if op == 'resume': t = p.type(); return ('resume', p.value(t))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.eat(','): ix.append(int(p.next()[1]))
        return ('extractvalue', dst, t, v, ix)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.need(','); et = p.type(); e = p.value(et); ix = []
        while p.eat(','): ix.append(int(p.next()[1]))
        return ('insertvalue', dst, t, v, et, e, ix)
    if op == 'freeze': t = p.type(); return ('freeze', dst, p.value(t))
    return ('other', dst, op, st)


def unq2(x): return x.strip('"').replace('\\0A', '\n').replace('\\09', '\t')


class Module:
    def __init__(m, text):
        m.types = {}; m.globals = {}; m.fns = {}; m.decls = {}; m._lay = {}
        lines = text.split('\n'); i = 0
        m.gtext = {}
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                m.header(l, lines[i + 1:j]); i = j + 1; continue
            if l.startswith('declare '): m.header(l, None)
            elif l.startswith('%') and ' = type ' in l:
                n, t = l.split(' = type ', 1); m.types[unq(n)] = t
            elif l.startswith('@'):
                mm = re.match(r'(@(?:"[^"]*"|[\w.$-]+)) = ', l)
                m.gtext[unq(mm.group(1))] = l[mm.end():]
            i += 1
        names = list(m.fns)
        d = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        m.dem = {}
        for n, x in zip(names, d):
            m.fns[n].dem = x; m.dem.setdefault(x, []).append(n)

    def header(m, l, body):
        mm = re.search(r'(@(?:"[^"]*"|[\w.$-]+))\(', l)
        f = Fn(); f.name = unq(mm.group(1)); f.lines = body; f.blocks = None; f.mod = m; f.loops = {}; f.order = []
        # parameter list
        i = mm.end(); d = 1; j = i
        while d:
            c = l[j]
            if c == '"':
                j = l.index('"', j + 1)
            elif c == '(': d += 1
            elif c == ')': d -= 1
            j += 1
        f.params = []; f.deref = []
        if body is not None:
            f.ret = None
            p = P(tokenize(l[i:j - 1]))
            while p.i < len(p.t):
                if p.peek() == '...': break
                t = p.type()
                s0 = p.i; p.attrs()
                at = p.t[s0:p.i]
                dr = None
                for q, (k, v) in enumerate(at):
                    if v == 'dereferenceable': dr = int(at[q + 2][1])
                nm = unq(p.next()[1]) if p.kind() == 'loc' else str(len(f.params))
                f.params.append((t, nm)); f.deref.append(dr)
                p.eat(',')
        f.linkage = 'def' if body is not None else 'decl'
        pre = l[:mm.start()]
        f.ret = pre
        if f.name not in m.fns or body is not None: m.fns[f.name] = f

    # layout
    def resolve(m, t):
        while t[0] == 'nm':
            x = m.types.get(t[1])
            if x is None: raise Unsupported('type %' + t[1])
            if isinstance(x, str): x = m.types[t[1]] = P(tokenize(x)).type()
            t = x
        return t

    def lay(m, t):
        """(size, align, field offsets)"""
        r = m._lay.get(t)
        if r: return r
        u = m.resolve(t)
        if u[0] == 'i':
            b = max(1, (u[1] + 7) // 8); s = 1
            while s < b: s *= 2
            r = (s, min(s, 16), None)
        elif u[0] == 'ptr': r = (8, 8, None)
        elif u[0] == 'f': r = {'float': (4, 4, None), 'double': (8, 8, None), 'x86_fp80': (16, 16, None)}[u[1]]
        elif u[0] == 'arr':
            s, a, _ = m.lay(u[2]); r = (s * u[1], a, None)
        elif u[0] == 'vec':
            s, a, _ = m.lay(u[2]); r = (s * u[1], s * u[1], None)
        elif u[0] == 'st':
            o = 0; al = 1; offs = []
            for f in u[1]:
                s, a, _ = m.lay(f)
                if u[2]: a = 1
                o = (o + a - 1) // a * a; offs.append(o); o += s; al = max(al, a)
            r = ((o + al - 1) // al * al, al, offs)
        else: raise Unsupported('layout of %s' % (u,))
        m._lay[t] = r
        return r

    def ctors(m):
        """static initialisers in order"""
        t = m.gtext.get('llvm.global_ctors')
        return re.findall(r'ptr @"?([^",]+)"?, ptr', t) if t else []

    def global_init(m, name):
        """(type, value, constant) of a global, or None when external"""
        t = m.gtext.get(name)
        if t is None: return None
        p = P(tokenize(t)); const = False; ext = False
        while True:
            v = p.peek()
            if v == 'constant': const = True; p.next(); break
            if v == 'global': p.next(); break
            if v in ('external', 'extern_weak'): ext = True
            if v == 'alias': p.next(); ty = p.type(); p.need(','); p.type(); return ('alias', p.value(('ptr',)), None)
            if v in ('thread_local',):
                p.next()
                if p.peek() == '(': p.skip_parens()
                continue
            if v in ('addrspace', 'comdat'):
                p.next()
                if p.peek() == '(': p.skip_parens()
                continue
            p.next()
        ty = p.type()
        if ext: return (ty, None, const)
        return (ty, p.value(ty), const)
