"""check driver: runs a property's contracts, writes evidence, decides the exit code, replays"""
import sys, os, time, pickle, tempfile, json, importlib, subprocess, traceback, re, z3
from . import build, core, execu, models
from .core import *
VERIF = build.VERIF
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')

class V:
    """context handed to a property's spec module"""
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed; self.mods = {}
        self.functions = []; self.failures = []; self.toollimits = []; self.vac = []
        self.obl = 0; self.dis = {'z3': 0, 'cvc5': 0, 'syntactic': 0}; self.nq = 0; self.tz3 = 0; self.tcvc5 = 0
        self.report = None; self.other = {}
        self.assumptions = []; self.inlined = set(); self.usedmodels = set(); self.paths = 0; self.loops = 0
        self.named = {}; self.notes = []; self.bounded = []; self.canary = 0; self.samples = []; self.par = 0; self.kids = {}; self.order = []
    def module(self, tu, flags=(), coro=False, layouts=False):
        k = (tu, tuple(flags), coro)
        if k not in self.mods:
            self.mods[k] = build.compile_tu(os.path.join(VERIF, 'tu', tu), flags, coro, layouts)
        return self.mods[k]
    def layout(self, mod, rx):
        c = [n for n in mod.layouts if re.fullmatch(rx, n)]
        if not c: raise ToolLimit('no record matching %s' % rx)
        return build.Layout(c[0], mod.layouts[c[0]])
    def fn(self, mod, rx):
        c = mod.find(rx)
        if len(c) != 1: raise ToolLimit('function %s: %d candidates %s' % (rx, len(c), [f.dem for f in c][:4]))
        return c[0]
    def ex(self, mod, name):
        ex = execu.Exec(mod, timeout_ms=20000 if self.tier == 'quick' else 60000)
        models.install(ex); ex.cur = name
        ex.crosscheck = (self.tier == 'thorough')
        return ex
    def assume_note(self, *a):
        for x in a:
            if x not in self.assumptions: self.assumptions.append(x)

    def contract(self, name, fn):
        """verify one function against its contract.  fn(c): builds the pre-state, runs, proves."""
        return Ctr(self, name, fn)

    def check(self, name, mod, body):
        """body(ex) runs executions on ex and proves postconditions; must call ex.live(outs) for vacuity.
        With self.par, contracts are discharged in forked processes, side by side; join() collects them."""
        if not self.par:
            ex, res = self.run_check(name, mod, body); self.merge(res); return ex
        while len(self.kids) >= self.par: self.reap()
        f = tempfile.TemporaryFile(); sys.stdout.flush(); sys.stderr.flush(); pid = os.fork()
        if pid == 0:
            try:
                res = self.run_check(name, mod, body)[1]; f.write(pickle.dumps(res)); f.flush()
            except BaseException: traceback.print_exc()
            finally: os._exit(0)
        self.kids[pid] = (len(self.order), name, f); self.order.append(None)
    def reap(self):
        while True:
            pid, _ = os.wait()
            if pid in self.kids: break
        n, name, f = self.kids.pop(pid); f.seek(0); b = f.read(); f.close()
        self.order[n] = pickle.loads(b) if b else dict(lost=name)
    def join(self):
        while self.kids: self.reap()
        for r in self.order:
            if 'lost' in r: self.toollimits.append('%s: the verifying process died' % r['lost'])
            else: self.merge(r)
        self.order = []
    def run_check(self, name, mod, body):
        ex = self.ex(mod, name); ex.V = self
        ex.terminals = 0
        t0 = time.time(); tl = []; other = {}; vac = []
        try:
            body(ex)
        except ToolLimit as e:
            tl.append('%s: %s' % (name, e))
        except Infeasible:
            if not ex.failures: tl.append('%s: contract pre-state infeasible' % name)
        except (KeyError, IndexError, AssertionError, z3.Z3Exception, TypeError, AttributeError, ValueError) as e:
            tl.append('%s: internal %s' % (name, traceback.format_exc()[-900:]))
        if self.report is not None:
            for f in [f for f in ex.failures if not self.report(f['obligation'])]:
                other[f['obligation']] = other.get(f['obligation'], 0) + 1
            ex.failures = [f for f in ex.failures if self.report(f['obligation'])]
            ex.obls = {k: o for k, o in ex.obls.items() if self.report(k)}
        n = sum(o['n'] for o in ex.obls.values())
        if not ex.failures and not tl:
            if n == 0 and self.report is None: vac.append('%s: no obligation generated' % name)
            if ex.terminals == 0: vac.append('%s: no feasible path reached the end of the function' % name)
        return ex, dict(name=name, tl=tl, other=other, vac=vac, failures=ex.failures, n=n, obls={k: (o['n'], o['fail']) for k, o in ex.obls.items()},
                        fun=dict(contract=name, obligations=n, failed=len(ex.failures), paths=ex.stats['paths'], loops=ex.stats['loops'],
                                 loop_invariants=ex.stats['loopinv'], seconds=round(time.time() - t0, 2)),
                        dis=dict(ex.discharged), nq=ex.nq, tz3=ex.tz3, tcvc5=ex.tcvc5, inlined=ex.inlined, models=ex.used_models, terminals=ex.terminals)
    def merge(self, r):
        self.toollimits += r['tl']; self.vac += r['vac']; self.functions.append(r['fun'])
        for k, c in r['other'].items(): self.other[k] = self.other.get(k, 0) + c
        for k in self.dis: self.dis[k] += r['dis'][k]
        for nm, (a, b) in r['obls'].items():
            d = self.named.setdefault('%s :: %s' % (r['name'], nm), [0, 0]); d[0] += a; d[1] += b
        self.obl += r['n']; self.nq += r['nq']; self.tz3 += r['tz3']; self.tcvc5 += r['tcvc5']
        self.failures += r['failures']
        self.inlined |= r['inlined']; self.usedmodels |= r['models']; self.paths += r['fun']['paths']; self.loops += r['fun']['loops']
        self.canary += r['terminals']

def _live(self, outs, kinds=('ret',)):
    """vacuity guard: count feasible terminal paths (on each, 'false' must not be provable)"""
    res = []
    for o in outs:
        if self.sat(o[0]):
            res.append(o)
            if o[1] in kinds: self.terminals += 1
    return res
execu.Exec.live = _live

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]

def main(pid):
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    z3.set_param('smt.random_seed', 1)
    v = V(pid, tier, seed)
    sys.path.insert(0, VERIF)
    err = None
    try:
        mod = importlib.import_module('specs.' + pid)
        try: mod.verify(v)
        finally: v.join()
    except build.CompileError as e:
        err = 'compile: ' + str(e)[-1500:]
    except ToolLimit as e:
        err = 'tool limit: %s' % e
    except Exception:
        err = 'internal: ' + traceback.format_exc()[-2000:]
    import specs_index
    info = specs_index.CHECKS.get(pid, {})
    known = load_known(pid)
    kf = []; rest = []
    for f in v.failures:
        hit = None
        for k in known:
            if all(re.search(rx, str(f.get(key, ''))) for key, rx in k['match'].items()): hit = k; break
        (kf if hit else rest).append((f, hit))
    status = 0
    replay = None
    undecided = bool(err or v.toollimits or v.vac)
    rdir = os.path.join(EVID, 'replay'); os.makedirs(rdir, exist_ok=True)
    found = None
    if rest or undecided:
        found = run_battery(v, mod if 'mod' in dir() else None, pid, tier)
    out = []
    if rest or found or undecided:
        replay = os.path.join(rdir, pid + '.txt')
        with open(replay, 'w') as fh:
            for f, _ in rest:
                fh.write('FAILED OBLIGATION: %s\n  contract: %s\n  at: %s\n  trace: %s\n  events: %s\n  counterexample: %s\n\n' % (
                    f['obligation'], f['fn'], f['loc'], ' '.join(f['trace']), f['events'], json.dumps(f['model'])))
            for t in v.toollimits + v.vac + ([err] if err else []): fh.write('OBLIGATION NOT DISCHARGED: %s\n' % t)
            if found: fh.write('FAILING RUN OF THE REAL CODE:\n%s\n' % found)
            else: fh.write('No concrete failing input found by the replay driver (no-failing-input-found).\n')
        for t in v.toollimits + v.vac + ([err] if err else []): out.append('obligation not discharged (the verifier could not redo the proof): %s' % t)
        for f, _ in rest: out.append('obligation failed: [%s] %s at %s' % (f['fn'], f['obligation'], f['loc']))
        status = 1
    for k in sorted({h['id'] for _, h in kf}):
        kk = [x for x in known if x['id'] == k][0]
        print('KNOWN-FINDING: property=%s %s' % (pid, kk['what']))
    nd = sum(v.dis.values())
    kfo = len(kf)
    cov = dict(obligations=v.obl, discharged=v.obl - len(v.failures),
               checker_cmd='./check %s' % pid,
               trusted_base=['vc/ (this VC generator over LLVM IR)', 'clang 18 front end and opt (sroa, simplifycfg, coroutine lowering)', 'z3 5.x', 'cvc5 1.1.2 (second back end)'] ,
               discharged_by=v.dis, functions_under_contract=v.functions, solver_queries=v.nq,
               solver_seconds=dict(z3=round(v.tz3, 2), cvc5=round(v.tcvc5, 2)), paths=v.paths, loops_cut_by_invariants=v.loops,
               asyncpp_functions_verified_inline=sorted(v.inlined)[:200], library_models_used=sorted(v.usedmodels)[:120],
               feasible_terminal_paths=v.canary, obligations_by_name={k: a[0] for k, a in sorted(v.named.items())},
               undecided=v.toollimits + v.vac + ([err] if err else []), bounded_standins=v.bounded, known_findings=[h['id'] for _, h in kf],
               samples=[k for k in list(v.named)[:5]], notes=v.notes, obligations_of_other_properties_that_failed_here=v.other)
    ev = dict(property=pid, tier=tier, seed=seed, level=info.get('level', 'proof'), coverage=cov, assumptions=v.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(rest))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for l in out[:40]: print(l)
    print('%s: %d obligations, %d discharged (%s), %d contracts, %d paths, %.1fs' % (pid, v.obl, v.obl - len(v.failures), v.dis, len(v.functions), v.paths, time.time() - t0))
    if status == 1:
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if found else ' no-failing-input-found'))
    return status

def run_battery(v, mod, pid, tier):
    """concrete replay against the real code; returns the text of a failing run or None"""
    src = os.path.join(VERIF, 'replay', pid + '.cpp')
    if not os.path.exists(src): return None
    d = build.scratch()
    variants = getattr(mod, 'REPLAY_VARIANTS', None) or [['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], ['-fsanitize=thread']]
    for n, flags in enumerate(variants):
        exe = os.path.join(d, 'replay_%s_%d' % (pid, n))
        cxx = 'g++'
        if flags and flags[0] in ('clang++-18', 'g++'): cxx = flags[0]; flags = flags[1:]
        p = subprocess.run([cxx, '-std=c++20', '-g', '-O1', '-w', '-I' + build.REPO + '/include', '-I' + os.path.join(VERIF, 'replay'), src, '-o', exe, '-pthread'] + list(flags),
                           capture_output=True, text=True)
        if p.returncode != 0:
            v.notes.append('replay driver does not compile: ' + p.stderr[-500:]); continue
        try:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=150, cwd=d, env=dict(os.environ, TSAN_OPTIONS='halt_on_error=1 detect_deadlocks=0', ASAN_OPTIONS='detect_leaks=1'))
            if r.returncode != 0:
                return 'driver %s %s exit %d\n%s\n%s' % (src, ' '.join(flags), r.returncode, r.stdout[-3000:], r.stderr[-3000:])
        except subprocess.TimeoutExpired as e:
            return 'driver %s: hang (lost wake-up or dead-lock): no progress for 150 s\n%s' % (src, (e.stdout or b'')[-2000:])
    return None
