"""Compiles specification units together with /repo's sources to LLVM IR and runs the verifier on their entry points."""
import os, time, traceback
import z3
from lib import common as C
from lib.common import Ob
from . import ir, ex, models
from .ir import Unsupported
from .mem import *

_mods = {}
FLAGS = ['-std=c++20', '-w', '-fno-access-control', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-stack-protector', '-DNDEBUG']


def compile_unit(check, name, preset='minimal', defs=(), inc=()):
    """IR module of vir/specs/<name>.cpp (which includes /repo's sources)"""
    ncv = C.ncv(check.tmp); cfg = C.gen_config(check.tmp, preset)
    out = os.path.join(check.tmp, '%s.%s.%s.ll' % (name, preset, abs(hash(tuple(defs))) % 10**8))
    src = os.path.join(C.VERIF, 'vir', 'specs', name + '.cpp')
    C.run(['clang++'] + FLAGS + ['-D' + d for d in defs] + list(inc) + ['-I' + ncv, '-I' + cfg, '-I' + os.path.join(cfg, 'include'), '-I' + C.REPO,
           '-I' + os.path.join(C.VERIF, 'vir/specs'), '-S', '-emit-llvm', src, '-o', out])
    return ir.Module(open(out).read())


def run_spec(mod, label, entry, overrides=(), opts=None, setup=None):
    """obligations of one entry point; never raises"""
    opts = dict(opts or {}); t = time.time()
    e = ex.Ex(mod, label, overrides, models.MODELS, opts)
    res = {'label': label, 'bodies': [], 'models': [], 'contracts': [], 'time': 0, 'queries': 0, 'loops': []}
    try:
        f = mod.fns.get(entry)
        if f is None or f.linkage != 'def': raise Unsupported('no entry point ' + entry)
        f.parse()
        mem = init_globals(e, mod) if opts.get('init_globals') else {}
        st = ex.State(); st.fr = []; st.mem = dict(mem); st.own = set(); st.pc = []; st.exc = None; st.abs = False; st.terms = []; st.ghost = {}; st.end = None; st.facts = set(); st.keep = []
        fr = ex.Frame(); fr.fn = f; fr.blk = f.order[0]; fr.prev = None; fr.i = 0; fr.regs = {}; fr.allocas = []; fr.call = None; fr.unroll = {}
        st.fr = [fr]
        if setup: setup(e, st)
        ends = e.run(st)
        done = [x for t_, x in ends if t_ == 'done']
        for t_, x in ends:
            if t_ == 'exc' and not opts.get('may_throw'):
                e.prove(x, False, 'control/no-exception', 'uncaught %s' % x.exc)
        live = [x for x in done if e.check(x, z3.BoolVal(True)) != 'unsat']
        if not live and not any(t_ == 'exc' for t_, x in ends): e.obs.append(Ob(label + '/reachability', 'vacuous', 'z3', 'no path reaches the end of the specification'))
        want = opts.get('covers', ())
        for c in want:
            if c not in e.covered: e.obs.append(Ob(label + '/cover/' + c, 'vacuous', 'z3', 'not reached'))
    except Unsupported as u:
        e.obs.append(Ob(label + '/execution', 'unknown', 'verifier', str(u)[:600]))
    except RecursionError:
        e.obs.append(Ob(label + '/execution', 'unknown', 'verifier', 'recursion'))
    except Exception as x:
        e.obs.append(Ob(label + '/execution', 'unknown', 'verifier', ('%s: %s\n' % (type(x).__name__, x) + traceback.format_exc()[-1200:])))
    res['backends'] = e.backends; res['time'] = time.time() - t; res['queries'] = e.qn; res['stime'] = e.qt; res['loops'] = e.loopinfo; res['slow'] = e.slow[:10]
    res['bodies'] = sorted(e.bodies); res['models'] = sorted(e.modelled); res['contracts'] = sorted(e.called)
    res['obs'] = [Ob(o.name, o.status, o.backend, str(o.detail)[:800], {k: str(v)[:200] for k, v in (o.model or {}).items()} or None) for o in e.obs]
    return res


def init_globals(e, mod):
    """memory after the static initialisers of the unit"""
    mem = {}; n0 = len(e.obs)
    for n in mod.ctors():
        f = mod.fns[n]; f.parse()
        st = ex.State(); st.fr = []; st.mem = mem; st.own = set(); st.pc = []; st.exc = None; st.abs = False; st.terms = []; st.ghost = {}; st.end = None; st.facts = set(); st.keep = []
        fr = ex.Frame(); fr.fn = f; fr.blk = f.order[0]; fr.prev = None; fr.i = 0; fr.regs = {}; fr.allocas = []; fr.call = None; fr.unroll = {}
        st.fr = [fr]; un = e.o.get('unroll'); e.o['initialising'] = True
        try: ends = e.run(st)
        finally: e.o['initialising'] = False
        if len(ends) != 1 or ends[0][0] != 'done': raise Unsupported('static initialisation of the unit branches')
        mem = ends[0][1].mem
        if ends[0][1].pc: raise Unsupported('static initialisation of the unit branches')
    mem = {k: o for k, o in mem.items() if k.startswith('@') or o.alive}
    new = e.obs[n0:]; del e.obs[n0:]
    e.obs += [o for o in new if o.status != 'ok'] + [Ob(e.label + '/static-initialisation', 'ok', 'symbolic execution', '%d accesses and assertions' % len(new))]
    for h in e.o.get('after_init', ()): h(e, mem)
    return mem


def run_all(check, jobs, nproc=8):
    """jobs: (label, callable -> run_spec result). Adds the obligations to the check; an undecided execution stays undecided."""
    r = C.parallel([(l, f) for l, f in jobs], nproc)
    fns = set(check.functions); mods = set()
    stats = []
    for l, f in jobs:
        k, v = r.get(l, ('err', 'no result'))
        if k != 'ok':
            check.add([Ob(l + '/execution', 'unknown', 'verifier', v[-700:])]); continue
        check.add(v['obs']); check.solver_time += v['stime']; check.queries += v['queries']
        fns |= set(v['bodies']) | set(v['contracts']); mods |= set(v['models'])
        stats.append({'specification': l, 'seconds': round(v['time'], 1), 'obligations': len(v['obs']), 'queries_by_solver': v.get('backends'), 'loops': v['loops'][:20], 'slow': v['slow'][:3], 'contracts_used': v['contracts'][:60]})
    repo = sorted(x for x in fns if not x.startswith(('std::', '__gnu_cxx', 'spec_', 'void std::', 'bool std::')) and 'std::__' not in x.split('(')[0])
    check.functions = repo
    check.extra.setdefault('library_bodies_executed', sorted(x for x in fns if x not in repo and not x.startswith('spec_'))[:400])
    check.extra.setdefault('library_models', sorted(mods))
    check.extra.setdefault('specifications', []).extend(stats)


def summarize(res):
    n = {}
    for o in res['obs']: n[o.status] = n.get(o.status, 0) + 1
    print('%s: %s %.1fs q=%d st=%.1f' % (res['label'], n, res['time'], res['queries'], res['stime']))
    for o in res['obs']:
        if o.status != 'ok': print('   ', o.status, o.name, str(o.detail)[:1500])
