"""Driver programs over generated bindings, analysed together with the library.

A driver is a few lines of Python that use the bindings as a caller would.  It
is never run: the abstract interpreter follows it through the code emitted for
a schema skeleton and through the library, with the data values left symbolic.
The result is the set of all paths, each with its condition on the data.
"""

import ast
import os

from .skel import *
from .region import *

HEADER = """
from decimal import Decimal
from collections import OrderedDict
import pyangbind.lib.yangtypes as yangtypes
import pyangbind.lib.base as pybase
from pyangbind.lib.yangtypes import *
"""


class Opaque(object):
    """A result the analysis could not describe."""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<%s>" % self.t


class Raised(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "raise %s" % self.name

    def __eq__(self, o):
        return isinstance(o, Raised) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


def M(_name, *subs, **kw):
    return (_name, subs, kw)


def show(m):
    """A module or statement as YANG text, for messages."""
    if len(m) == 3:
        return "module %s { %s }" % (m[0], " ".join(show(x) for x in m[1]))
    kw, arg, subs = m[0], m[1], m[2]
    return "%s %s%s" % (kw, arg, " { %s }" % " ".join(show(x) for x in subs) if subs else ";")


class Lab(object):
    def __init__(self, ctx, root, maxpaths=600):
        self.ctx = ctx
        self.root = root
        self.it = Whole(root)
        self.it.maxpaths = maxpaths
        if ctx is not None:
            ctx.interps.append(self.it)
        self.n = 0
        self.texts = {}
        self.sites = {}

    # ------------------------------------------------------------ generation
    def emit(self, *mods, **opts):
        """[(state, text | Raise)] for skeleton modules; the last one is the module to generate (or opts['only'])."""
        only = opts.pop("only", None)
        prepare = opts.pop("prepare", None)
        it = Whole(self.root)
        it.maxpaths = self.it.maxpaths
        if self.ctx is not None:
            self.ctx.interps.append(it)
        sk = Skeleton(it, **opts)
        if prepare is not None:
            prepare(it)
        built = []
        for name, subs, kw in mods:
            built.append(sk.module(name, *subs, **kw))
        sel = [sk.mods[n] for n in only] if only else [built[-1]]
        return sk.split(*sel) if opts.get("split_class_dir") else sk.generate(*sel)

    def text(self, *mods, **opts):
        """The emitted code (a constant), or Undecided."""
        from .report import Undecided

        outs = self.emit(*mods, **opts)
        vals = [v for _, v in outs]
        if not vals or any(v is not vals[0] and v != vals[0] for v in vals):
            raise Undecided("emitted code differs between %d paths" % len(vals))
        v = vals[0]
        if all(isinstance(x, Raise) for x in vals) and mods:
            names = {getattr(self.py(s, x), "name", None) for s, x in outs}
            if len(names) == 1 and names <= {"KeyError", "IndexError", "SystemExit", "ValueError", "TypeError", "InvalidOperation", "NameError", "UnboundLocalError"}:
                from .report import Definite
                raise Definite("the generator stops with %s on the valid schema %s" % (pp(vals[0].exc)[:200], ", ".join(show(m) for m in mods)[:600]), self.site("pyangbind.plugin.pybind:build_pybind"))
        if isinstance(v, Raise):
            raise Undecided("generator raises %s on the skeleton" % pp(v.exc))
        if not isinstance(v, C):
            raise Undecided("emitted code not determined: %s" % pp(v)[:200])
        return v.v

    # ------------------------------------------------------------ drivers
    def load(self, text, drivers):
        self.n += 1
        name = "gen%d" % self.n
        self.it.closed_mods.add(name)
        try:
            ast.parse(text)
        except SyntaxError as e:
            from .report import Definite
            raise Definite("the code emitted for a valid schema does not parse: %s: %s" % (e, (e.text or "").strip()[:200]), self.site("pyangbind.plugin.pybind:get_children"))
        self.load_module(name, HEADER + text + "\n\n" + drivers, "<generated code %d>" % self.n)
        return name

    def load_module(self, name, text, f):
        """Known exceptions on every path of loading generated code are definite."""
        try:
            self.it.load_source(name, text, f)
        except AnalysisBroken as e:
            outs = getattr(e, "outs", [])
            names = {getattr(self.py(s, g), "name", None) if isinstance(g, Raise) else None for s, g in outs}
            if outs and names <= {"TypeError", "ImportError", "NameError", "AttributeError", "KeyError", "SyntaxError"}:
                from .report import Definite
                raise Definite("the code emitted for a valid schema stops with %s when it is imported" % pp(outs[0][1].exc)[:200], self.site("pyangbind.plugin.pybind:get_children"))
            raise

    def package(self, drivers, *mods, **opts):
        """As bind, for the packages written with split classes: the drivers know the package as pk."""
        from .report import Definite, Undecided
        outs = self.emit(*mods, split_class_dir="/pk", **opts)
        if len(outs) != 1 or isinstance(outs[0][1], Raise):
            raise Undecided("split classes not determined: %s" % [pp(v.exc)[:150] if isinstance(v, Raise) else "" for _, v in outs][:3])
        self.n += 1
        top = "pk%d" % self.n
        for path, text in outs[0][1].items():
            if not isinstance(text, C) or not path.startswith("/pk") or not path.endswith("/__init__.py"):
                raise Undecided("file %s not determined" % path)
            name = ".".join([top] + path.split("/")[2:-1])
            try:
                ast.parse(text.v)
            except SyntaxError as e:
                raise Definite("the code emitted for a valid schema does not parse: %s: %s" % (e, (e.text or "").strip()[:200]), self.site("pyangbind.plugin.pybind:get_children"))
            self.it.virtual[name] = (path.replace("/pk", "/" + top, 1), text.v)
            self.it.closed_mods.add(name)
        try:
            self.it.load(top)
        except AnalysisBroken as e:
            outs = getattr(e, "outs", [])
            names = {getattr(self.py(s, g), "name", None) if isinstance(g, Raise) else None for s, g in outs}
            if outs and names <= {"TypeError", "ImportError", "NameError", "AttributeError", "KeyError"}:
                raise Definite("the package emitted for a valid schema stops with %s when it is imported" % pp(outs[0][1].exc)[:200], self.site("pyangbind.plugin.pybind:get_children"))
            raise
        g = "gen%d" % self.n
        self.it.closed_mods.add(g)
        self.it.load_source(g, "import pyangbind.lib.pybindJSON as pbj\nfrom %s import %s\n" % (top, mods[-1][0].replace("-", "_").replace(".", "_")) + drivers, "<drivers %d>" % self.n)
        return g

    def bind(self, drivers, *mods, **opts):
        return self.load(self.text(*mods, **opts), drivers)

    def run(self, name, fn, **given):
        """given: name='str'|'int'|... for a symbolic datum of that type, ('const', x) or a V."""
        f = self.it.base.env["m:" + name].get(fn)
        if f is None:
            raise AnalysisBroken("no driver " + fn)
        args = {}
        st = self.it.base.clone()
        st.events = ()
        for k, t in given.items():
            if isinstance(t, V):
                args[k] = t
            elif isinstance(t, tuple) and t[0] == "const":
                args[k] = C(t[1])
            else:
                p = T("param", k)
                if t is not None:
                    self.it.exact_types[p] = t
                else:
                    self.it.exact_types.pop(p, None)
                args[k] = p
        return self.it.run(f, args, st=st)

    # ------------------------------------------------------------ results
    def py(self, st, v, env=None, d=0):
        """Result value as a Python structure; symbolic parts are evaluated at env or left as terms."""
        if isinstance(v, Raise):
            e = v.exc
            if isinstance(e, Term) and e.op == "exc":
                c = e.args[0]
                n = c.name if isinstance(c, ClassVal) else clsname(c) if not isinstance(c, C) else c.v
                return Raised(n)
            return Raised(None)
        if d > 30:
            return Opaque("deep")
        if isinstance(v, C):
            return v.v
        if isinstance(v, Ref):
            h = st.heap.get(v.id)
            if isinstance(h, HList):
                if not h.known():
                    return Opaque(pp(self.it.freeze(st, v)))
                xs = [self.py(st, i, env, d + 1) for i in h.items]
                return xs if h.kind == "list" else frozenset(x if not isinstance(x, list) else tuple(x) for x in xs) if h.kind == "set" else tuple(xs)
            if isinstance(h, HDict):
                if not all(isinstance(i, tuple) for i in h.items):
                    return Opaque(pp(self.it.freeze(st, v)))
                out = {}
                for k, x in h.items:
                    k = self.py(st, k, env, d + 1)
                    try:
                        out[k] = self.py(st, x, env, d + 1)
                    except TypeError:
                        return Opaque("dict")
                return out
        if isinstance(v, Term):
            if v.op == "obj":
                x = st.attrs.get((v, VALUE))
                if x is not None:
                    return self.py(st, x, env, d + 1)
                lst = st.attrs.get((v, C("_list")))
                if lst is not None:
                    return self.py(st, lst, env, d + 1)
                return Opaque(pp(v))
            if v.op in ("tuple",):
                return tuple(self.py(st, i, env, d + 1) for i in v.args)
            if v.op == "list" and all(isinstance(i, V) for i in v.args):
                return [self.py(st, i, env, d + 1) for i in v.args]
            if env is not None:
                try:
                    return value_at(v, env)
                except Unknown:
                    return Opaque(pp(v))
                except Raises:
                    return Opaque(pp(v))
            if v.op in ATOMS or v.op == "not":
                b = decide(st.facts, v) if v.op != "not" else None
                if b is not None:
                    return b
            return v
        if isinstance(v, ClassVal):
            return ("class", v.name)
        return Opaque(repr(v))

    def expect(self, inst, outs, want, site=None, reps=({},), what="", params=()):
        """Obligation: on every path (at every region representative) the result is as wanted.

        want: a Python structure (terms allowed: P('v') is the datum v), or a function(result, env) -> True/False/None."""
        ctx = self.ctx
        verdicts = []
        detail = []
        # 1. path by path, for every value at once
        if not callable(want):
            if outs and all(_same(self.py(s, v), want) is True for s, v in outs):
                ctx.ok(inst, (what + ": " if what else "") + "on all %d paths, for every value" % len(outs), site)
                return True
        for rep in reps:
            env = {T("param", k): x for k, x in rep.items()}
            dfn, pos = outcomes_at(outs, env)
            cand = dfn or pos
            rs = []
            for s, v in cand:
                r = self.py(s, v, env)
                if callable(want):
                    try:
                        ok = want(r, rep)
                    except Exception:
                        ok = None
                else:
                    ok = _same(r, _conc(want, rep))
                rs.append(ok)
                if ok is False:
                    detail.append("at %s: path [%s] gives %r, wanted %s" % (rep or "any value", ppfacts(s.facts)[:600], r, "as described" if callable(want) else repr(_conc(want, rep))))
            if not rs:
                verdicts.append(None)
            elif all(r is True for r in rs):
                verdicts.append(True)
            elif all(r is False for r in rs):
                verdicts.append(False)
            else:
                verdicts.append(None)
        if any(v is False for v in verdicts):
            ctx.bad(inst, (what + ": " if what else "") + "the paths through the code give another result; " + (detail[0] if detail else ""), site, "\n".join(detail[:10]))
            return False
        if verdicts and all(v is True for v in verdicts):
            ctx.ok(inst, (what + ": " if what else "") + "on %d paths, %d region(s) of the input" % (len(outs), len(verdicts)), site)
            return True
        ctx.und(inst, (what + ": " if what else "") + "not decided on %d of %d region(s)" % (sum(1 for v in verdicts if v is None), len(verdicts)), site)
        return None

    # ------------------------------------------------------------ sites
    def site(self, path):
        """file:line of 'pyangbind.lib.yangtypes:Outer.inner' (best effort)."""
        mod, _, q = path.partition(":")
        f = os.path.join(self.root, mod.replace(".", "/") + ".py")
        rel = os.path.relpath(f, self.root)
        try:
            tree = ast.parse(open(f).read())
        except Exception:
            return rel
        node = tree
        for part in [x for x in q.split(".") if x]:
            for x in ast.walk(node):
                if x is not node and isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part:
                    node = x
                    break
        return "%s:%s" % (rel, getattr(node, "lineno", 1))


def P(name):
    return T("param", name)


def _conc(w, rep):
    if isinstance(w, Term) and w.op == "param":
        return rep.get(w.args[0], w)
    if isinstance(w, tuple):
        return tuple(_conc(x, rep) for x in w)
    if isinstance(w, list):
        return [_conc(x, rep) for x in w]
    if isinstance(w, dict):
        return {k: _conc(x, rep) for k, x in w.items()}
    return w


def _same(r, w):
    """True / False / None: is result r the wanted structure."""
    if w is ANY:
        return True
    if isinstance(r, Opaque):
        return None
    if isinstance(r, Term) or isinstance(w, Term):
        return True if r is w else None
    if isinstance(w, (tuple, list)):
        if type(r) is not type(w):
            return False
        if len(r) != len(w):
            return False
        rs = [_same(a, b) for a, b in zip(r, w)]
        if False in rs:
            return False
        return None if None in rs else True
    if isinstance(w, dict):
        if not isinstance(r, dict):
            return False
        if any(isinstance(k, (Term, Opaque)) for k in r):
            return None
        if set(r) != set(w):
            return False
        rs = [_same(r[k], w[k]) for k in w]
        if False in rs:
            return False
        return None if None in rs else True
    if isinstance(w, frozenset) or isinstance(r, frozenset):
        if any(isinstance(x, (Term, Opaque)) for x in (r if isinstance(r, frozenset) else ())):
            return None
        return r == w
    if isinstance(w, bool) or isinstance(r, bool):
        return r is w or (r == w and type(r) in (bool, int) and type(w) in (bool, int))
    if isinstance(r, Raised) and r.name is None:
        return None
    return type(r) == type(w) and r == w or r == w


class _Any(object):
    def __repr__(self):
        return "anything"


ANY = _Any()
