"""Assemble/compile the current sources, disassemble, and give decoded instructions + constant sections."""
import re, subprocess, os, struct

REPO = os.environ.get('VP_REPO', '/repo')


class BuildError(Exception): pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stderr[-2000:])
    return p.stdout


def assemble(name, outdir):
    """name: file stem in ssz/.  Same assembler and format as the repository's build."""
    o = os.path.join(outdir, name + '.o')
    run(['yasm', '-f', 'elf64', '-I', REPO, '-o', o, 'ssz/%s.asm' % name], cwd=REPO)
    return o


class Insn:
    __slots__ = ('addr', 'size', 'mn', 'ops', 'reloc', 'text')

    def __repr__(self): return '%x: %s' % (self.addr, self.text)


class Obj:
    def __init__(self, path):
        self.path = path
        self.sections = {}   # name -> (bytes, align, writable)
        self.syms = {}       # name -> (section, off)
        self.insns = {}      # (section, addr) -> Insn
        self._sections(); self._symbols(); self._dis()

    def _sections(self):
        self.secnames = {}
        data = open(self.path, 'rb').read()
        out = run(['readelf', '-S', '-W', self.path])
        for m in re.finditer(r'\[\s*(\d+)\]\s+(\S+)\s+(PROGBITS|NOBITS)\s+(\S+)\s+(\S+)\s+(\S+)\s+\S+\s+(\S*)\s+\d+\s+\d+\s+(\d+)', out):
            idx, name, ty, addr, off, size, flg, al = m.groups()
            off, size = int(off, 16), int(size, 16)
            b = bytes(size) if ty == 'NOBITS' else data[off:off + size]
            self.sections[name] = (b, int(al), 'W' in flg)
            self.secnames[int(idx)] = name

    def _symbols(self):
        out = run(['readelf', '-s', '-W', self.path])
        for l in out.splitlines():
            f = l.split()
            if len(f) >= 8 and f[0].rstrip(':').isdigit() and f[6].isdigit():
                nm = self.secnames.get(int(f[6]))
                if nm: self.syms[f[7]] = (nm, int(f[1], 16))

    def _dis(self):
        out = run(['objdump', '-d', '-r', '-w', '-M', 'intel', '--no-show-raw-insn', self.path])
        sec = None; last = None
        for l in out.splitlines():
            m = re.match(r'Disassembly of section (\S+):', l)
            if m: sec = m.group(1); last = None; continue
            m = re.match(r'\s*([0-9a-f]+):\t(.*)$', l)
            if not m or sec is None: continue
            parts = m.group(2).split('\t')
            a = int(m.group(1), 16)
            text = parts[0].split('#')[0].strip()
            i = Insn(); i.addr = a; i.text = text; i.reloc = None; i.size = None
            r = re.match(r'.*?([0-9a-f]+): (R_X86_64_\w+)\s+(\S+?)([-+]0x[0-9a-f]+)?$', ' '.join(parts[1:]).strip())
            if r:
                i.reloc = (int(r.group(1), 16), r.group(2), r.group(3), int(r.group(4) or '0', 16))
            f = text.split(None, 1)
            i.mn = f[0]
            while i.mn in ('data16', 'cs', 'rep', 'repz', 'bnd', 'notrack', 'ds', 'es', 'ss', 'nopw', 'nopl') and len(f) > 1 and i.mn not in ('nopw', 'nopl'):
                f = f[1].split(None, 1); i.mn = f[0]
            i.ops = split_ops(f[1]) if len(f) > 1 else []
            if last is not None: last.size = a - last.addr
            last = i
            self.insns[(sec, a)] = i
            if i.size is None: i.size = 0
        # size of the last instruction is irrelevant (must not fall through)


def split_ops(s):
    s = re.sub(r'<[^>]*>', '', s)
    out, d, cur = [], 0, ''
    for c in s:
        if c == '[': d += 1
        if c == ']': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
