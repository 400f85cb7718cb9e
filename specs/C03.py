from .eventlib import EventModel
def verify(V):
    mod = V.module('events.cpp')
    EventModel(V, mod, 'me', multi=True, auto=False).all()
