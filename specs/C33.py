"""async_main: main() runs the user's task on a dispatcher and returns its result; the dispatcher outlives everybody who uses it"""
from .coro import *
from .C18 import live_frames
from .C24 import SD
class SD2(SD):
    """simple_dispatcher again: who may still use it when run() has returned"""
    def pre(self, ex, op):
        st = SD.pre(self, ex, op); st.ghost.update(over=False, lseen=z3.BoolVal(False)); st.guards[self.r.id] = self.guard
        sh = st.shared[(self.r.id, self.do)]; obs = sh.observe
        def observe(ex_, s, kind): self.use(ex_, s, ''); return obs(ex_, s, kind)
        sh.observe = observe
        return st
    def use(self, ex, st, loc):
        ex.prove(st, not st.ghost.get('over'), 'stop() does not touch the dispatcher any more once it has released the lock', loc)
    def guard(self, ex, st, p, size, write, loc): self.use(ex, st, loc)
    def acq(self, ex, st, k, loc):
        if k == (self.r.id, self.mo): self.use(ex, st, loc)
        SD.acq(self, ex, st, k, loc)
    def rel(self, ex, st, k, loc):
        SD.rel(self, ex, st, k, loc)
        if k == (self.r.id, self.mo):
            st.setg('lseen', ex.simp(Or(zb(st.ghost['lseen']), zb(st.ghost['done']))))
            if self.op == 'stop': st.ghost['over'] = True
    def notify(self, ex, st, p, loc): self.use(ex, st, loc); return SD.notify(self, ex, st, p, loc)
def verify(V):
    smod = V.module('sdisp.cpp'); M = SD2(V, smod)
    def stop(ex):
        st = M.pre(ex, 'stop')
        for s, k, v in ex.live(ex.exec_fn(st, smod.funcs['sd_stop'], [Ptr(M.r, 0)])): ex.prove(s, k == 'ret' and s.ghost['over'] and not s.ghost['held'], 'stop releases the lock'); ex.prove(s, And(zb(s.ghost['lseen']), zi(s.ghost['need']) == 0), 'stop stops the dispatcher and wakes it')
    V.check('simple_dispatcher.stop lets go of the dispatcher with the lock', smod, stop)
    def run(ex):
        st = M.pre(ex, 'run'); M.base = ex.exec_fn(st, smod.funcs['sd_base'], [Ptr(M.r, 0)])[0][2]
        for s, k, v in ex.live(ex.exec_fn(st, smod.funcs['sd_run'], [Ptr(M.r, 0)]), ('ret', 'throw')):
            if k == 'ret': ex.prove(s, zb(s.ghost['lseen']), 'run returns only after stop() has released the lock, it does not use the dispatcher any more')
    V.check('simple_dispatcher.run returns when nobody uses it any more', smod, run)
    mod = V.module('amain.cpp', coro=True); F = lambda n: mod.funcs[n]
    def main_(ex):
        C = Coro(ex, mod); st = State(); C.start(st); st.ghost.update(disp=None, q=(), stopped=False, elsewhere=False, calls=0, val=None, frame=())
        argc = z3.Int('ARGC'); st.assume(And(argc >= 0, argc < 2 ** 31)); argv = addr_sym(ex, st, 'ARGV')
        D = lambda a: ex.to_int(a)
        def isdisp(s, a, loc): ex.prove(s, s.ghost['disp'] is not None and ex.valid(s, ex.eq(a, s.ghost['disp'])), 'the dispatcher is used while it exists', loc)
        def ctor(e, s, F_, a, loc): e.prove(s, s.ghost['disp'] is None, 'there is one dispatcher', loc); s.ghost['disp'] = a[0]; return [(s, 'ret', None)]
        def dtor(e, s, F_, a, loc): isdisp(s, a[0], loc); e.prove(s, not s.ghost['elsewhere'] or s.ghost['stopped'], 'nobody uses the dispatcher when it is destroyed', loc); s.ghost['disp'] = None; return [(s, 'ret', None)]
        def push(e, s, F_, a, loc):
            isdisp(s, a[0], loc); r = e.new_region(s, 'queued', 32)
            outs = []
            for s2, k, _ in e.live(e.exec_fn(s, F('am_take'), [Ptr(r, 0), a[1]])): e.prove(s2, k == 'ret', 'queued', loc); s2.ghost['q'] = s2.ghost['q'] + (r,); outs.append((s2, 'ret', None))
            return outs
        def stop_(e, s, F_, a, loc):
            e.prove(s, not (s.ghost['elsewhere'] and s.ghost['stopped']), 'main() may have returned once the dispatcher was stopped', loc)
            isdisp(s, a[0], loc); e.prove(s, s.ghost['val'] is not None or s.ghost['exc'] is not None, 'the dispatcher is stopped only when async_main has finished', loc)
            s.ghost['stopped'] = True
            if s.ghost['elsewhere']:
                s.guards = dict(s.guards)
                for rid in s.ghost['frame']: s.guards[rid] = gone
            return [(s, 'ret', None)]
        def gone(e, s, p, size, write, loc): e.fail(s, 'nothing of main() is used by another thread after stop(): main() may have returned', loc)
        def resume(e, s, loc):
            """the environment, on any thread"""
            s.ghost['elsewhere'] = True; h = s.ghost.pop('env_h'); outs = []; c = s.caught; s.caught = []
            for s2, k, _ in e.exec_fn(s, F('am_hres'), [h]):
                if k == 'ret': s2.caught = c; s2.guards = {i: f for i, f in s2.guards.items() if f is not gone}; outs.append(s2)
                elif k != 'stop': e.fail(s2, 'no exception leaves through the thread that finished async_main', loc)
            return outs
        def run_(e, s, F_, a, loc):
            isdisp(s, a[0], loc); sts = [s]; s.ghost['frame'] = tuple(r for r in s.mem if r in e.stackids and s.mem[r].alive)
            while any(x.ghost['q'] and not x.ghost['stopped'] for x in sts):
                nx = []
                for x in sts:
                    if not x.ghost['q'] or x.ghost['stopped']: nx.append(x); continue
                    q = x.ghost['q']; x.ghost['q'] = q[1:]
                    for y, k, _ in e.live(e.exec_fn(x, F('am_invoke'), [Ptr(q[0], 0)])):
                        e.prove(y, k == 'ret', 'the callback does not throw', loc)
                        if k != 'ret': continue
                        for z, k2, _ in e.live(e.exec_fn(y, F('am_drop'), [Ptr(q[0], 0)])): nx.append(z)
                sts = nx
            outs = []
            for x in sts:
                for y in (resume(e, x, loc) if x.ghost.get('env_h') is not None else [x]):
                    e.prove(y, y.ghost['stopped'], 'the dispatcher is stopped once async_main has finished, on whatever thread', loc)
                    if y.ghost['stopped']: outs.append((y, 'ret', None))
            return outs
        def args(e, s, F_, a, loc):
            s.ghost['calls'] += 1; e.prove(s, s.ghost['calls'] == 1, 'async_main is called once', loc); e.prove(s, And(zi(a[0]) == argc, e.eq(a[1], argv)), 'async_main gets the arguments of main', loc); return [(s, 'ret', None)]
        def envint(e, s, F_, a, loc):
            v = fresh_int('result'); s.assume(And(v >= 0, v < 2 ** 32)); s2 = s.clone(); x = fresh_int('exc'); s2.assume(x > 0); s2.ghost['exc'] = x; s.ghost['val'] = v
            return [(s, 'ret', v), (s2, 'throw', Exc(None, x))]
        def susp(e, s, F_, a, loc):
            s.ghost['env_h'] = a[1]; s2 = s.clone()
            # finished by another thread before await_suspend returns
            return [(s, 'ret', None)] + [(x, 'ret', None) for x in resume(e, s2, loc)]
        P = r'^asyncpp::simple_dispatcher::'
        ex.contracts = [(re.compile(P + r'simple_dispatcher\('), ctor), (re.compile(P + r'~simple_dispatcher\('), dtor), (re.compile(P + r'push\('), push), (re.compile(P + r'stop\('), stop_), (re.compile(P + r'run\('), run_),
                        (re.compile(r'^vt::args\('), args), (re.compile(r'^vt::env_int\('), envint), (re.compile(r'^vt::env_awaiter::await_suspend\('), susp)] + ex.contracts
        for s, k, v in ex.live(ex.exec_fn(st, F('am_call'), [argc, argv]), ('ret', 'throw')):
            g = s.ghost; P_ = lambda c, n: ex.prove(s, c, n)
            P_(g['calls'] == 1, 'async_main was called once')
            if k == 'ret': P_(g['exc'] is None and g['val'] is not None, 'main returns only if async_main returned'); P_(g['val'] is None or zi(v) == g['val'], 'main returns the value of async_main')
            else: P_(g['exc'] is not None, 'main throws only if async_main did'); P_(g['exc'] is None or (isinstance(v, Exc) and ex.valid(s, zi(v.tok) == g['exc'])), 'main throws exactly the exception of async_main')
            P_(g['disp'] is None, 'the dispatcher is destroyed'); P_(not live_frames(s), 'all frames and functions are freed'); P_(g['locals'] == 0 and g['awaiters'] == 0, 'all locals of async_main are destroyed')
    V.check('main: async_main runs to its end, any outcome, on any thread', mod, main_)
    V.assume_note('the operations of simple_dispatcher by their contracts (C24 and the two contracts here); async_main is a coroutine with the most general body that suspends at most once (task resumes its awaiter once whatever the body does, C18)',
                  'std::mutex may be destroyed as soon as nobody holds it; push does not fail; main is not called concurrently', 'what another thread does until the dispatcher is stopped is only seen through the task it finishes')
