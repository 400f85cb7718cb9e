"""routing of resumptions, for every event class and the latch"""
from .eventlib import *
import re
from . import C08
RX = re.compile(r'dispatcher|delivered at most once|queued callback|only coroutines taken|coroutine delivered|memory safety|undefined behaviour')
def verify(V):
    V.report = lambda n: bool(RX.search(n)) and 'synchronises' not in n
    mod = V.module('events.cpp')
    for p, m, a in (('se', 0, 0), ('sa', 0, 1), ('me', 1, 0), ('ma', 1, 1)):
        e = EventModel(V, mod, p, multi=bool(m), auto=bool(a))
        e.verify_ctor()
        if not e.ok(): return
        e.verify_set(); e.verify_set('set0'); e.verify_await()
    C08.verify(V)
