from .eventlib import EventModel
def verify(V):
    mod = V.module('events.cpp')
    EventModel(V, mod, 'se', multi=False, auto=False).all()
