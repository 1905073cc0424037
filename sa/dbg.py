import sys
from .repo import Repo
from .interp import *
def ev(it, kinds=None, skip=()):
    for e in it.events:
        if kinds and e.kind not in kinds: continue
        print(e.where[0].split('/')[-1], e.where[2], e.kind, e.name, '| recv', e.recv, '| args', e.args, dict((k,v) for k,v in e.kwargs.items()), '| g', e.guard(), '| L', [d for l in e.loops for d in l.doms])
