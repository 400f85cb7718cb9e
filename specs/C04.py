from .eventlib import EventModel
def verify(V):
    mod = V.module('events.cpp')
    EventModel(V, mod, 'ma', multi=True, auto=True).all()
