"""Shared vocabulary of the rules: leaves, setters and expected value spaces."""

from sa.report import rule, explain, Undecided
from sa.scenario import *

YT = "pyangbind.lib.yangtypes:"
BASE = "pyangbind.lib.base:"
SER = "pyangbind.lib.serialise:"
PB = "pyangbind.plugin.pybind:"
XP = "pyangbind.lib.xpathhelper:"
PJ = "pyangbind.lib.pybindJSON:"
IDH = "pyangbind.helpers.identity:"
MISC = "pyangbind.helpers.misc:"


def leaf(name, typ, *subs):
    """typ: a type name or an S('type', ...)."""
    return S("leaf", name, typ if isinstance(typ, tuple) else S("type", typ), *subs)


def typ(name, *subs):
    return S("type", name, *subs)


def pyname(n):
    return n.replace("-", "_").replace(".", "_")


def setter(leafs, mod="mod"):
    """A driver per leaf: assign v to a fresh instance, return what reading gives."""
    out = []
    for l in leafs:
        p = pyname(l)
        out.append("def set_%s(v):\n    m = %s()\n    m.%s = v\n    return m.%s\n" % (p, mod, p, p))
    return "\n".join(out)


def accepts(pred, conv=lambda v: v, exc=("ValueError",)):
    """Wanted: the converted value if pred(v) else one of exc."""

    def want(r, rep):
        v = rep["v"]
        if pred(v):
            if isinstance(r, Raised):
                return False
            if isinstance(r, (Term, Opaque)):
                return None
            return same(r, conv(v))
        if isinstance(r, Raised):
            return None if r.name is None else r.name in exc
        return False

    want.universal = True
    return want


def widened(outs, given, reps):
    """More values for a datum: the constants that the paths compare it with, and what lies beside them."""
    if len(given) != 1 or not reps or set(reps[0]) != set(given):
        return reps
    (k, kind), = given.items()
    have = {r[k] for r in reps}
    more = []

    def add(x):
        if x not in have and len(more) < 40:
            have.add(x)
            more.append({k: x})

    if kind == "int":
        for c in sorted(constants(outs, None)):
            if isinstance(c, int) or float(c).is_integer():
                for x in (int(c), int(c) - 1, int(c) + 1):
                    add(x)
    elif kind == "str":
        p = T("param", k)
        for s, _ in outs:
            for atom in s.facts:
                for x in walk(atom):
                    if isinstance(x, Term) and x.op in ("eq", "inset", "startswith", "endswith", "in", "lt") and any(y is p for y in walk(x)):
                        for y in walk(x):
                            if isinstance(y, C) and isinstance(y.v, str) and len(y.v) < 60:
                                add(y.v)
    return list(reps) + more


def vals(*xs):
    return [{"v": x} for x in xs]


def run(ctx, lab, gen, inst, fn, given, want, reps=({},), site=None, what="", universal=False):
    """One obligation; a failure of the analysis leaves it undecided.

    universal: what is wanted is right for every value of the datum, so that values may be added to reps."""
    try:
        outs = lab.run(gen, fn, **given)
    except (AnalysisBroken, AnalysisLimit, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
        ctx.und(inst, "%s: %s" % (type(e).__name__, str(e)[:200]), site)
        return None
    if universal or getattr(want, "universal", False):
        reps = widened(outs, given, reps)
    return lab.expect(inst, outs, want, site, reps, what)


def run_each(ctx, lab, gen, fn, given, wants, site=None, reps=({},)):
    """The driver returns a tuple; wants: (instance, wanted) for each element of it."""
    try:
        outs = lab.run(gen, fn, **given)
    except (AnalysisBroken, AnalysisLimit, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
        for inst, w in wants:
            ctx.und(inst, "%s: %s" % (type(e).__name__, str(e)[:200]), site)
        return

    def nth(j, w):
        def want(r, rep):
            if isinstance(r, Raised):
                return None if r.name is None else False
            if not isinstance(r, (tuple, list)):
                return None
            return w(r[j], rep) if callable(w) else same(r[j], w)

        return want

    for j, (inst, w) in enumerate(wants):
        lab.expect(inst, outs, nth(j, w), site, reps, "")


def same(r, w):
    """True / False / None (not known): the result is the wanted structure."""
    from sa.scenario import _same

    return _same(r, w)
