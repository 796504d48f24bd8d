"""Shared plumbing of the checks: scratch space, builds from /repo's working tree, outcome policy, evidence files."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
SHIM = os.path.join(VERIF, 'shim')
T0 = time.time()


def scratch():
    base = os.path.join(VERIF, 'scratch')
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix='run.', dir=base)
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


class CmdError(Exception): pass


def run(cmd, timeout=300, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)
    except subprocess.TimeoutExpired:
        raise CmdError('timeout: ' + ' '.join(cmd)[:300])
    if p.returncode: raise CmdError(' '.join(cmd)[:300] + '\n' + p.stderr[-1500:])
    return p.stdout


def gen_config(dest, preset):
    """config.hpp exactly as the repository's CMake configure_file step writes it"""
    d = os.path.join(dest, preset, 'include'); os.makedirs(d, exist_ok=True)
    t = open(os.path.join(REPO, 'config', preset + '.hpp.in')).read()
    t = t.replace('@CMAKE_SOURCE_DIR@', REPO).replace('${CMAKE_SOURCE_DIR}', REPO)
    open(os.path.join(d, 'config.hpp'), 'w').write(t)
    return os.path.join(dest, preset)


class Ob:
    """one proof obligation: status ok | refuted (definite countermodel) | failed (no proof, countermodel in an abstracted state)
    | unknown (tool limit) | vacuous"""
    __slots__ = ('name', 'status', 'backend', 'detail', 'model')

    def __init__(s, name, status, backend, detail='', model=None):
        s.name, s.status, s.backend, s.detail, s.model = name, status, backend, detail, model

    def asdict(s): return {'name': s.name, 'status': s.status, 'backend': s.backend, 'detail': s.detail, 'model': s.model}


class Check:
    def __init__(self, pid):
        self.pid = pid; self.obs = []; self.battery = []; self.assumptions = []; self.functions = []
        self.notes = []; self.trusted = []; self.violation = None; self.solver_time = 0.0; self.queries = 0
        self.tmp = scratch(); self.extra = {}; self.known = []

    def add(self, obs): self.obs += obs

    def batt(self, name, bound, cases, bad=None, how=None):
        """a concrete run: bad is None or a description of the failing input"""
        self.battery.append({'name': name, 'bound': bound, 'cases': cases, 'result': 'violation' if bad else 'nothing found'})
        if bad: self.report({'kind': 'concrete failing input', 'battery': name, 'failure': bad, 'how_to_replay': how})

    def report(self, v):
        key = known_key(self.pid, v)
        if key is not None:
            self.known.append(key); return
        if self.violation is None: self.violation = v

    def finish(self):
        bad = [o for o in self.obs if o.status in ('refuted', 'failed')]
        und = [o for o in self.obs if o.status in ('unknown', 'vacuous')]
        noin = False
        if self.violation is None and bad:
            noin = True
            self.violation = {'kind': 'failed obligation', 'failing_input': 'none found by replaying against the real code'}
        for k in sorted(set(self.known)): print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        disc = [o for o in self.obs if o.status == 'ok']
        byb = {}
        for o in disc: byb[o.backend] = byb.get(o.backend, 0) + 1
        seen = {}
        for o in self.obs: seen.setdefault(o.name, o.status)
        cov = {'obligations': len(self.obs), 'discharged': len(disc), 'checker_cmd': 'python3-vt /verif/check.py %s' % self.pid,
               'trusted_base': self.trusted, 'discharged_by_back_end': byb, 'functions_under_contract': self.functions,
               'solver_time_s': round(self.solver_time, 3), 'solver_queries': self.queries,
               'undecided_obligations': [o.asdict() for o in und][:40], 'failed_obligations': [o.asdict() for o in bad][:40],
               'bounded_checks_not_counted_as_proved': self.battery, 'notes': self.notes,
               'obligation_sample': [o.name + ' [' + o.backend + ']' for o in disc[:: max(1, len(disc) // 25)]][:30]}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': 1 if self.violation else 0}
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d obligations, %d discharged (%s), %d failed, %d undecided; bounded runs: %s; %.1f s' % (
            self.pid, len(self.obs), len(disc), ', '.join('%s %d' % x for x in sorted(byb.items())), len(bad), len(und),
            ', '.join('%s=%s' % (b['name'], b['cases']) for b in self.battery) or 'none', time.time() - T0))
        for o in (bad + und)[:8]: print('  %s %s: %s' % (o.status, o.name, str(o.detail)[:300]))
        if self.violation:
            rp = os.path.join(VERIF, 'evidence', 'replay', self.pid + '.json')
            self.violation['property'] = self.pid
            self.violation['failed_obligations'] = [o.asdict() for o in bad][:40]
            self.violation['undecided_obligations'] = [o.asdict() for o in und][:20]
            json.dump(self.violation, open(rp, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s%s' % (self.pid, rp, ' no-failing-input-found' if noin else ''))
            return 1
        return 0


_known = None


def known_key(pid, v):
    """known findings are matched on the specific failing input they name"""
    global _known
    if _known is None:
        _known = []
        p = os.path.join(VERIF, 'known-findings.jsonl')
        if os.path.exists(p):
            _known = [json.loads(l) for l in open(p) if l.strip() and not l.startswith('#')]
    for k in _known:
        if k.get('property') == pid and k.get('status') == 'open' and k.get('match') and k['match'] in json.dumps(v.get('failure', '')): return k['what']
    return None


def parallel(jobs, n=8):
    """jobs: list of (name, callable) run in forked processes; yields {name: result or Exception}"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    res = {}; procs = {}
    pend = list(jobs)[::-1]
    import multiprocessing.connection as mc

    def child(conn, f):
        try: r = ('ok', f())
        except BaseException as e: r = ('err', '%s: %s' % (type(e).__name__, e) + '\n' + traceback.format_exc()[-1500:])
        try: conn.send(r)
        except Exception as e: conn.send(('err', 'result not transferable: %s' % e))
        conn.close()
    while pend or procs:
        while pend and len(procs) < n:
            nm, f = pend.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, f)); p.start(); b.close()
            procs[a] = (nm, p)
        for c in mc.wait(list(procs), 1):
            nm, p = procs.pop(c)
            try: res[nm] = c.recv()
            except EOFError: res[nm] = ('err', 'worker died')
            c.close(); p.join()
    return res


def ncv(dest):
    """libstdc++'s vector headers with constexpr removed from std::vector<T> (not vector<bool>): clang 18 otherwise rejects
    the repository's containers whose element type is incomplete at the point of use; g++ accepts them. No code changes."""
    src = '/usr/include/c++/13/bits/'
    d = os.path.join(dest, 'ncv', 'bits'); os.makedirs(d, exist_ok=True)
    M = '_GLIBCXX20_CONSTEXPR'
    open(os.path.join(d, 'stl_vector.h'), 'w').write(open(src + 'stl_vector.h').read().replace(M, ''))
    t = open(src + 'vector.tcc').read()
    i = t.index('vector<bool, _Alloc>::')
    j = t.rindex(M, 0, i)
    open(os.path.join(d, 'vector.tcc'), 'w').write(t[:j].replace(M, '') + t[j:])
    return os.path.join(dest, 'ncv')
