"""Path-partitioned abstract interpreter for the subset of Python the repository uses.

It propagates symbolic values (value numbering) and branch facts through the
syntax trees, inlining repository functions, summarising loops and recording
externally visible effects.  It never imports or runs the analysed code.
"""

import ast
import builtins as _bi
import os

from .vals import *
from .state import *


# exceptions of the standard library and the builtin class they derive from
EXT_EXC = {
    "decimal.InvalidOperation": "ArithmeticError",
    "decimal.DecimalException": "ArithmeticError",
    "decimal.Inexact": "ArithmeticError",
    "json.JSONDecodeError": "ValueError",
    "json.decoder.JSONDecodeError": "ValueError",
    "binascii.Error": "ValueError",
}


class AnalysisLimit(Exception):
    pass


class AnalysisBroken(Exception):
    """An anchor of a rule is missing."""


class Frame(object):
    __slots__ = ("scope", "mod", "mangle", "func", "locals", "globals", "nonlocals", "eid")

    def __init__(self, scope, mod, mangle=None, func=None, locals_=None, globals_=(), nonlocals=()):
        self.scope = scope
        self.eid = scope[0]
        self.mod = mod
        self.mangle = mangle
        self.func = func
        self.locals = locals_
        self.globals = globals_
        self.nonlocals = nonlocals


_locals_cache = {}


def stored_names(nodes):
    out, glob, nonl = set(), set(), set()

    def tgt(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)

    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    tgt(x.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            rec(c)

    for n in nodes:
        rec(n)
    return out - glob - nonl, glob, nonl


LIVEOPS = frozenset(("tuple", "obj", "item", "iterobj"))
_yield_cache = {}


def has_yield(node):
    r = _yield_cache.get(id(node))
    if r is None:
        r = _yield_cache[id(node)] = (_has_yield(node), node)
    return r[0]


def _has_yield(node):
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class Base(object):
    """Infrastructure shared by the mixins."""

    MAXPATHS = 6000
    MAXDEPTH = 14
    strict = False           # stop rather than treat a call as opaque beyond the inlining depth

    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.sources = {}
        self.base = State()
        self.types = {}          # term -> ClassVal
        self.opaque = set()      # qualified names never inlined
        self.opaque_pred = None  # fn(FuncVal) -> bool
        self.hooks = {}          # qualname or ext name -> fn(interp, st, fn, args, kw, site) -> outcomes
        self.pin = {}            # term -> value
        self.pin_fn = None       # term -> value or None
        self.noraise = set()
        self.inline_new = set()
        self.recurse = {}        # qualified name -> how often it may be on the inlining stack
        self.closed_mods = set() # modules whose objects have no attributes but the ones set
        self.trydepth = 0
        self.stack = []
        self.active_loops = []
        self.stats = {"functions": set(), "paths": 0, "calls": 0}
        self.fcache = {}
        self.analysed_files = set()
        self.maxpaths = self.MAXPATHS
        self.virtual = {}        # emitted packages: module name -> (file name, text)

    # ------------------------------------------------------------ modules
    def modfile(self, name):
        p = os.path.join(self.root, *name.split("."))
        for c in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(c):
                return c
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.virtual:
            return self.load_source(name, self.virtual[name][1], self.virtual[name][0])
        f = self.modfile(name)
        if f is None:
            raise AnalysisBroken("module %s not found" % name)
        with open(f, encoding="utf-8") as fd:
            src = fd.read()
        return self.load_source(name, src, f)

    def load_source(self, name, src, f):
        m = ModVal()
        m.name = name
        self.modules[name] = m
        self.sources[name] = (f, src)
        self.analysed_files.add(f)
        tree = ast.parse(src, f)
        eid = "m:" + name
        self.base.env[eid] = {"__name__": C(name), "__file__": C(f)}
        st = self.base
        fr = Frame((eid,), name)
        s0 = st.clone()
        s0.ctr = max(s0.ctr, len(self.modules) * 100000)
        outs = self.exec_block(tree.body, s0, fr)
        bad, outs = outs, [(s, g) for s, g in outs if g is None]
        if not outs:
            e = AnalysisBroken("module %s cannot be evaluated" % name)
            e.outs = bad
            raise e
        s = outs[0][0]
        # the other modules loaded meanwhile live in self.base as well
        for k, v in self.base.env.items():
            if k not in s.env:
                s.env[k] = v
        for k, v in self.base.heap.items():
            s.heap.setdefault(k, v)
        s.events = ()
        s.facts = {}
        s.ctr = max(s.ctr, self.base.ctr)
        self.base = s
        return m

    def import_into(self, st, name):
        m = self.load(name)
        for k, v in self.base.env.items():
            if k not in st.env:
                st.env[k] = v
        for k, v in self.base.heap.items():
            if k not in st.heap:
                st.heap[k] = v
        for k, v in self.base.attrs.items():
            st.attrs.setdefault(k, v)
        return m

    def lookup_mod(self, mod, name):
        self.load(mod)
        e = self.base.env["m:" + mod]
        return e.get(name)

    def get(self, path):
        """'pkg.mod:Name.attr' -> value, from the loaded base state."""
        mod, _, rest = path.partition(":")
        self.load(mod)
        v = None
        for i, n in enumerate(rest.split(".")):
            if i == 0:
                v = self.base.env["m:" + mod].get(n)
            else:
                v = self.class_lookup(self.base, v, n) if isinstance(v, ClassVal) else None
            if v is None:
                raise AnalysisBroken("%s not found (at %s)" % (path, n))
        return v

    def site(self, node, fr):
        f = self.sources.get(fr.mod, (fr.mod, ""))[0]
        if f.startswith(self.root + "/"):
            f = f[len(self.root) + 1:]
        return "%s:%s" % (f, getattr(node, "lineno", 0))

    # ------------------------------------------------------------ branching
    def truth(self, st, v):
        """-> [(st, bool)]"""
        v = self.as_bool(st, v)
        if isinstance(v, bool):
            return [(st, v)]
        atom, pol = split_not(v)
        d = decide(st.facts, atom)
        if d is not None:
            return [(st, d == pol)]
        if isinstance(atom, Term) and atom.op == "or":
            out = []
            cur = [st]
            for a in atom.args:
                nx = []
                for s in cur:
                    for s2, b in self.truth(s, a):
                        if b:
                            out.append((s2, pol))
                        else:
                            nx.append(s2)
                cur = nx
            return out + [(s, not pol) for s in cur]
        s2 = st.clone()
        out = []
        if assume(st, atom, True):
            out.append((st, pol))
        if assume(s2, atom, False):
            out.append((s2, not pol))
        return out

    def as_bool(self, st, v):
        """Canonical atom (or bool) for the truth value of v."""
        if isinstance(v, bool):
            return v
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, Ref):
            h = st.h(v)
            if not h.items:
                return False
            for i in h.items:
                if not isinstance(i, (Gen, Splice)):
                    return True
            if len(h.items) == 1:
                i = h.items[0]
                if isinstance(i, Splice):
                    return T("truthy", i.term)
                if not i.facts:
                    return T("truthy", i.it)
                return T("exists", i.it, i.facts)
            return T("truthy", self.freeze(st, v))
        if isinstance(v, (FuncVal, ClassVal, ModVal, Bound)):
            return True
        if isinstance(v, Term):
            if v.op == "not":
                r = self.as_bool(st, v.args[0])
                return neg(r)
            if v.op in ATOMS:
                return v
            if v.op == "tuple":
                return bool(v.args)
            if v.op == "str":
                if any(isinstance(p, C) for p in v.args):
                    return True
                return T("truthy", v)
            if v.op in ("new", "obj", "exc", "method", "exttype"):
                if v.op in ("exttype", "method", "exc"):
                    return True
                cv = self.typeof(v)
                if isinstance(cv, ClassVal) and self.class_closed(cv) and self.class_lookup(st, cv, "__bool__") is None and self.class_lookup(st, cv, "__len__") is None:
                    return True

                return T("truthy", v)
            if v.op in ("len", "list", "tuple_of", "keys", "values", "items", "set_of", "bool", "sorted", "reversed", "copy"):
                return self.as_bool(st, v.args[0])
            if v.op in ("ext", "rx", "rxmatch"):
                return True
        return T("truthy", v)

    # ------------------------------------------------------------ merging
    def merge(self, outs):
        """Exact merging: two partitions that differ in the truth of one atom only are joined."""
        if len(outs) < 2:
            return outs
        if len(outs) > self.maxpaths:
            raise AnalysisLimit("more than %d paths" % self.maxpaths)
        groups = {}
        order = []
        for st, sig in outs:
            key = (self.sigkey(sig), st.events, len(st.env))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((st, sig))
        res = []
        for key in order:
            g = groups[key]
            if len(g) == 1:
                res.extend(g)
                continue
            # partition by equality of live state
            classes = []
            for st, sig in g:
                live = None
                for cl in classes:
                    st0, sig0, live0 = cl[0]
                    if st0.env != st.env or st0.attrs != st.attrs:
                        continue
                    if st0.heap != st.heap:
                        if live is None:
                            live = self.live(st, sig)
                        if live0 is None:
                            live0 = self.live(st0, sig0)
                            cl[0] = (st0, sig0, live0)
                        if live0 != live:
                            continue
                    cl.append((st, sig, live))
                    break
                else:
                    classes.append([(st, sig, live)])
            for cl in classes:
                items = [(s, g2) for s, g2, _ in cl]
                if len(items) > 1:
                    items = self.merge_facts(items)
                res.extend(items)
        return res

    def sigkey(self, sig):
        if sig is None:
            return None
        if isinstance(sig, tuple):
            return sig
        if isinstance(sig, Raise):
            return ("raise", sig.exc)
        return sig

    def live(self, st, sig):
        seen = {}
        stack = []
        done = set()
        for eid, e in st.env.items():
            if not isinstance(eid, str):
                stack.extend(e.values())
        stack.extend(st.attrs.values())
        if isinstance(sig, tuple):
            stack.extend(sig)
        elif isinstance(sig, V):
            stack.append(sig)
        heap = st.heap
        while stack:
            v = stack.pop()
            c = v.__class__
            if c is C:
                continue
            if c is Ref:
                if v.id in seen or v.id not in heap:
                    continue
                h = heap[v.id]
                seen[v.id] = h
                stack.extend(h.items)
            elif c is Term:
                if v.op in LIVEOPS and id(v) not in done:
                    done.add(id(v))
                    stack.extend(v.args)
            elif c is tuple:
                stack.extend(v)
            elif c is Gen:
                stack.append(v.value)
                stack.append(v.key)
            elif c is Bound:
                stack.append(v.obj)
        return seen

    def merge_facts(self, items):
        changed = True
        items = list(items)
        while changed and len(items) > 1:
            changed = False
            seen = {}
            out = []
            for st, sig in items:
                k = frozenset(st.facts.items())
                if k in seen:
                    changed = True
                    continue
                seen[k] = (st, sig)
                out.append((st, sig))
            items = out
            index = {frozenset(st.facts.items()): n for n, (st, _) in enumerate(items)}
            dead = set()
            for n, (st, sig) in enumerate(items):
                if n in dead:
                    continue
                fs = frozenset(st.facts.items())
                for a, b in list(st.facts.items()):
                    other = (fs - {(a, b)}) | {(a, not b)}
                    m = index.get(other)
                    if m is None:
                        # subsumption: a state that already lacks the atom
                        m2 = index.get(fs - {(a, b)})
                        if m2 is not None and m2 not in dead and m2 != n:
                            dead.add(n)
                            changed = True
                            break
                        continue
                    if m == n or m in dead:
                        continue
                    dead.add(m)
                    index.pop(fs, None)
                    st.ctr = max(st.ctr, items[m][0].ctr)
                    st.facts = dict(st.facts)
                    del st.facts[a]
                    fs = frozenset(st.facts.items())
                    index[fs] = n
                    changed = True
                    break
            items = [x for n, x in enumerate(items) if n not in dead]
        return items

    # ------------------------------------------------------------ freeze
    def freeze(self, st, v, d=0):
        """Immutable description of a value (snapshot of the containers it refers to)."""
        if isinstance(v, Ref):
            h = st.heap.get(v.id)
            if h is None or d > 6:
                return v
            if isinstance(h, HList):
                if len(h.items) > 400:
                    return v
                return T(h.kind, *[self.freeze_entry(st, i, d) for i in h.items])
            if len(h.items) > 200:
                return v
            return T("dict", *[(self.freeze(st, i[0], d + 1), self.freeze(st, i[1], d + 1)) if isinstance(i, tuple) else self.freeze_entry(st, i, d) for i in h.items])
        if isinstance(v, Term) and v.op in ("tuple", "new", "call", "exc", "item", "obj"):
            na = tuple(self.freeze(st, a, d + 1) if isinstance(a, V) else (tuple(self.freeze(st, x, d + 1) if isinstance(x, V) else x for x in a) if isinstance(a, tuple) else a) for a in v.args)
            return v if na == v.args else T(v.op, *na)
        if isinstance(v, Bound) and isinstance(v.obj, Ref):
            return Bound(v.fn, self.freeze(st, v.obj, d + 1))
        return v

    def freeze_entry(self, st, i, d):
        if isinstance(i, Gen):
            return Gen(i.it, i.facts, self.freeze(st, i.value, d + 1), self.freeze(st, i.key, d + 1) if i.key is not None else None)
        if isinstance(i, Splice):
            return i
        return self.freeze(st, i, d + 1)

    # ------------------------------------------------------------ classes
    def mro(self, cv):
        out = []

        def rec(c):
            if isinstance(c, ClassVal):
                if c in out:
                    out.remove(c)
                out.append(c)
                for b in c.bases:
                    rec(b)
            else:
                if c in out:
                    out.remove(c)
                out.append(c)

        rec(cv)
        return out

    def class_lookup(self, st, cv, name):
        for c in self.mro(cv):
            if isinstance(c, ClassVal):
                v = st.attrs.get((c, C(name)))
                if v is None:
                    v = c.ns.get(name)
                if v is not None:
                    return v
        return None

    def class_closed(self, cv):
        """True when every base is known (an absent attribute is really absent)."""
        return all(isinstance(c, ClassVal) or (isinstance(c, Term) and c.op in ("exttype", "ext") and c.args[0] == "object") for c in self.mro(cv))

    def is_exc_class(self, cv):
        for c in self.mro(cv):
            if isinstance(c, Term) and c.op in ("exttype", "ext"):
                o = getattr(_bi, c.args[0], None)
                if isinstance(o, type) and issubclass(o, BaseException):
                    return True
        return False

    def typeof(self, v):
        if isinstance(v, Term):
            t = self.types.get(v)
            if t is not None:
                return t
            if v.op == "new" and isinstance(v.args[0], ClassVal):
                return v.args[0]
            if v.op == "obj":
                return v.args[1]
        return None

    def exc_matches(self, exc, handler):
        """Does exception value match handler class: True/False/None."""
        ec = exc.args[0] if isinstance(exc, Term) and exc.op == "exc" else None
        hn = clsname(handler)
        if hn in ("Exception", "BaseException"):
            return True
        if ec is None:
            return None
        if isinstance(ec, C):  # 'LookupError' style description
            ec = T("exttype", ec.v)
        chain = self.mro(ec) if isinstance(ec, ClassVal) else [ec]
        if handler in chain:
            return True
        for c in chain:
            n = clsname(c)
            if isinstance(c, Term) and c.args and c.args[0] in EXT_EXC:
                n = EXT_EXC[c.args[0]]
            a, b = getattr(_bi, n or "", None), getattr(_bi, hn or "", None)
            if isinstance(a, type) and isinstance(b, type):
                if issubclass(a, b):
                    return True
                if n == "LookupError" and issubclass(b, a):
                    return None
        if isinstance(ec, (ClassVal,)) or (isinstance(ec, Term) and ec.op in ("exttype", "ext")):
            return False
        return None
