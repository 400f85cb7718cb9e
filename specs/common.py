from vc.core import *
from vc.core import zi, zb
import z3, re
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')
def const(ex, mod, n): return ex.exec_fn(State(), mod.funcs[n], [])[0][2]
def addr_sym(ex, st, name, nonnull=True):
    t = z3.Int(name); st.assume(z3.And(t >= (1 if nonnull else 0), t < 2 ** 47)); return SPtr(t)
def count(evs, *pre): return sum(1 for e in evs if e[:len(pre)] == pre)
def rets(ex, outs): return [o for o in ex.live(outs) if o[1] == 'ret']
