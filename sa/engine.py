from .interp import *
from .stmts import Stmts
from .exprs import Exprs
from .objects import Objects
from .loops import Loops
from .calls import Calls
from .builtin_models import Builtins


class Interp(Base, Stmts, Exprs, Objects, Loops, Calls, Builtins):
    pass


def show(outs, limit=40):
    for n, (s, v) in enumerate(outs[:limit]):
        print("== path %d: [%s]" % (n, ppfacts(s.facts)))
        for e in s.events:
            print(ppev(e, 1))
        print("   ->", v if isinstance(v, Raise) else pp(s and v))
    if len(outs) > limit:
        print("... %d paths" % len(outs))
