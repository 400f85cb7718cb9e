from .eventlib import EventModel
def verify(V):
    mod = V.module('events.cpp')
    EventModel(V, mod, 'sa', multi=False, auto=True).all()
