"""Abstract state: environment, heap updates, local collection contents, branch facts, effect log."""
from collections import namedtuple
from terms import *

# one way elements get into a collection
Gen = namedtuple('Gen', 'kind value key frames guards flags uid')     # kind: elem | kv | open | minus | fuzz
Coll = namedtuple('Coll', 'kind gens depth flags')
Frame = namedtuple('Frame', 'it src base partial')
Eff = namedtuple('Eff', 'kind tgt key val frames guards uid node func flags')

NOFLAGS = frozenset()


class St:
    __slots__ = ('env', 'heap', 'colls', 'facts', 'eff', 'ctx', 'lossy', 'raised')

    def __init__(self):
        self.env, self.heap, self.colls, self.facts = {}, {}, {}, {}
        self.eff = ()
        self.ctx = ()
        self.lossy = False

    def copy(self):
        s = St.__new__(St)
        s.env, s.heap, s.colls, s.facts = dict(self.env), dict(self.heap), dict(self.colls), dict(self.facts)
        s.eff, s.ctx, s.lossy = self.eff, self.ctx, self.lossy
        return s

    def key_nofacts(self):
        return (frozenset((k, v.order if isinstance(v, T) else id(v)) for k, v in self.env.items()),
                frozenset((k[0].order, k[1], v.order) for k, v in self.heap.items()),
                frozenset((k.order, v) for k, v in self.colls.items()),
                tuple((e.uid, e.guards) for e in self.eff),
                tuple(f.it for f in self.ctx))

    def key_nocolls(self, text):
        return (frozenset((k, (0 if text(v) else v.order) if isinstance(v, T) else id(v)) for k, v in self.env.items()),
                frozenset((k[0].order, k[1], v.order) for k, v in self.heap.items()),
                tuple((e.uid, e.guards) for e in self.eff),
                tuple(f.it for f in self.ctx))

    def key_env(self, text):
        return (frozenset((k, (0 if text(v) else v.order) if isinstance(v, T) else id(v)) for k, v in self.env.items()),
                tuple(f.it for f in self.ctx))

    def cur_guards(self, depth=0):
        """branch facts gained inside the loops entered since `depth`"""
        if len(self.ctx) <= depth:
            return frozenset()
        base = self.ctx[depth].base
        return frozenset((a, b) for a, b in self.facts.items() if a not in base)

    def cur_frames(self, depth=0):
        return tuple((f.it, f.src) for f in self.ctx[depth:])
