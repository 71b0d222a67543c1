"""Abstract values of the analysis.

All immutable values are hash-consed, so equality is identity.  Terms stand for
unknown run-time values: two occurrences of one term denote the same value
(value numbering); nothing is ever executed.
"""

import hashlib

_table = {}


class V(object):
    __slots__ = ()


class C(V):
    """A compile-time constant (None, bool, int, float, str, bytes, ...)."""

    __slots__ = ("v",)

    def __new__(cls, v):
        n = type(v).__name__
        # 1.5 and 1.50 are equal, but not the same Decimal
        key = ("C", n, str(v)) if n in ("Decimal", "float") else ("C", n, v)
        r = _table.get(key)
        if r is None:
            r = object.__new__(cls)
            r.v = v
            _table[key] = r
        return r

    def __repr__(self):
        return repr(self.v)


class Term(V):
    """op(args): an unknown value, described by how it is computed."""

    __slots__ = ("op", "args")

    def __repr__(self):
        return pp(self)


def T(op, *args):
    key = ("T", op, args)
    r = _table.get(key)
    if r is None:
        r = Term()
        r.op = op
        r.args = args
        _table[key] = r
    return r


class Ref(V):
    """Reference to a mutable list/dict/set held in State.heap."""

    __slots__ = ("id",)

    def __new__(cls, i):
        key = ("R", i)
        r = _table.get(key)
        if r is None:
            r = object.__new__(cls)
            r.id = i
            _table[key] = r
        return r

    def __repr__(self):
        return "ref%s" % (self.id,)


class FuncVal(V):
    __slots__ = ("node", "scope", "cls", "defaults", "kwdefaults", "module", "name", "kind", "qual")

    def __repr__(self):
        return "<fn %s>" % self.qual


class ClassVal(V):
    __slots__ = ("node", "name", "bases", "ns", "module", "qual", "scope")

    def __repr__(self):
        return "<class %s>" % self.qual


class ModVal(V):
    __slots__ = ("name",)

    def __repr__(self):
        return "<module %s>" % self.name


class Bound(V):
    """Bound method: fn with its first argument fixed."""

    __slots__ = ("fn", "obj")

    def __new__(cls, fn, obj):
        key = ("B", fn, obj)
        r = _table.get(key)
        if r is None:
            r = object.__new__(cls)
            r.fn = fn
            r.obj = obj
            _table[key] = r
        return r

    def __repr__(self):
        return "<bound %s.%s>" % (pp(self.obj), getattr(self.fn, "name", self.fn))


class Gen(object):
    """Comprehension-like part of a container: value for each elem of `it` on which `facts` hold."""

    __slots__ = ("it", "facts", "value", "key")

    def __new__(cls, it, facts, value, key=None):
        k = ("G", it, facts, value, key)
        r = _table.get(k)
        if r is None:
            r = object.__new__(cls)
            r.it, r.facts, r.value, r.key = it, facts, value, key
            _table[k] = r
        return r

    def __repr__(self):
        return "*(%s for %s if %s)" % (
            pp(self.value) if self.key is None else "%s: %s" % (pp(self.key), pp(self.value)),
            pp(self.it),
            ppfacts(self.facts),
        )


class Splice(object):
    """Unknown further elements of a container."""

    __slots__ = ("term",)

    def __new__(cls, term):
        k = ("S", term)
        r = _table.get(k)
        if r is None:
            r = object.__new__(cls)
            r.term = term
            _table[k] = r
        return r

    def __repr__(self):
        return "*%s" % pp(self.term)


# A run of the interpreter: None, or a number that stands for a hash seed and the addresses of objects,
# and so settles the order that sets are iterated over.
RUN = [None]


def run_key(x):
    if isinstance(x, C) and isinstance(x.v, (int, bool)):
        return (0, x.v, "")
    return (1, 0, hashlib.md5(("%s %r" % (RUN[0], x.v if isinstance(x, C) else x)).encode()).hexdigest())


class HList(object):
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind = kind
        if RUN[0] is not None and kind == "set" and len(items) > 1 and not any(isinstance(i, (Gen, Splice)) for i in items):
            items = tuple(sorted(items, key=run_key))
        self.items = items

    def __eq__(self, o):
        return isinstance(o, HList) and self.kind == o.kind and self.items == o.items

    def __hash__(self):
        return hash((self.kind, self.items))

    def known(self):
        return not any(isinstance(i, (Gen, Splice)) for i in self.items)


class HDict(object):
    """items: tuple of (k, v) | Gen | Splice"""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def __eq__(self, o):
        return isinstance(o, HDict) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def known(self):
        return not any(isinstance(i, (Gen, Splice)) for i in self.items)


class Ev(object):
    """An observable effect.  `site` is for reports only and takes no part in comparisons."""

    __slots__ = ("kind", "a", "site")

    def __init__(self, kind, a, site=None):
        self.kind = kind
        self.a = a
        self.site = site

    def __eq__(self, o):
        return isinstance(o, Ev) and self.kind == o.kind and self.a == o.a

    def __hash__(self):
        return hash((self.kind, self.a))

    def __repr__(self):
        return ppev(self)


class Body(object):
    """One path through a loop body."""

    __slots__ = ("facts", "events", "sig")

    def __init__(self, facts, events, sig):
        self.facts = facts
        self.events = events
        self.sig = sig

    def __eq__(self, o):
        return isinstance(o, Body) and self.facts == o.facts and self.events == o.events and self.sig == o.sig

    def __hash__(self):
        return hash((self.facts, self.events, self.sig))


class Raise(object):
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "raise %s" % pp(self.exc)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def cbool(b):
    return TRUE if b else FALSE


def tup(items):
    return T("tuple", *items)


def is_str(v):
    return (isinstance(v, C) and isinstance(v.v, str)) or (isinstance(v, Term) and v.op == "str")


def str_parts(v):
    """Parts of a value formatted into a string."""
    if isinstance(v, C):
        if isinstance(v.v, str):
            return (v,) if v.v else ()
        return (C(str(v.v)),)
    if isinstance(v, Term) and v.op == "str":
        return v.args
    return (v,)


def mkstr(parts):
    out = []
    for p in parts:
        for q in str_parts(p):
            if isinstance(q, C) and out and isinstance(out[-1], C):
                out[-1] = C(out[-1].v + q.v)
            else:
                out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and isinstance(out[0], C):
        return out[0]
    return T("str", *out)


def subst(v, m, _memo=None):
    """Replace terms in v by the mapping m."""
    if _memo is None:
        _memo = {}
    if v in m:
        return m[v]
    if isinstance(v, Term):
        if v in _memo:
            return _memo[v]
        na = tuple(subst(a, m, _memo) if isinstance(a, (V, tuple, Gen, frozenset)) else a for a in v.args)
        if na == v.args:
            r = v
        elif v.op == "str":
            r = mkstr(na)
        else:
            r = T(v.op, *na)
        _memo[v] = r
        return r
    if isinstance(v, Bound):
        return Bound(v.fn, subst(v.obj, m, _memo))
    if isinstance(v, tuple):
        return tuple(subst(a, m, _memo) if isinstance(a, (V, tuple, Gen, frozenset)) else a for a in v)
    if isinstance(v, frozenset):
        return frozenset(subst(a, m, _memo) for a in v)
    if isinstance(v, Gen):
        return Gen(subst(v.it, m, _memo), subst(v.facts, m, _memo), subst(v.value, m, _memo), subst(v.key, m, _memo) if v.key is not None else None)
    return v


def walk(v):
    """All sub-values of v."""
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
            continue
        if isinstance(x, Gen):
            st.extend((x.it, x.facts, x.value))
            if x.key is not None:
                st.append(x.key)
            continue
        if isinstance(x, Splice):
            st.append(x.term)
            continue
        if isinstance(x, Bound):
            st.append(x.obj)
            yield x
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        if isinstance(x, Term):
            st.extend(x.args)


def mentions(v, x):
    for y in walk(v):
        if y is x:
            return True
    return False


def pp(v, d=0):
    if d > 9:
        return "..."
    if isinstance(v, Term):
        a = v.args
        if v.op in ("param", "name", "ext"):
            return str(a[0])
        if v.op == "attr":
            if isinstance(a[1], C):
                return "%s.%s" % (pp(a[0], d + 1), a[1].v)
            return "getattr(%s, %s)" % (pp(a[0], d + 1), pp(a[1], d + 1))
        if v.op == "item":
            return "%s[%s]" % (pp(a[0], d + 1), pp(a[1], d + 1))
        if v.op == "str":
            return "f'" + "".join(p.v.replace("\n", "\\n") if isinstance(p, C) else "{%s}" % pp(p, d + 1) for p in a) + "'"
        if v.op == "call":
            return "%s(%s)" % (pp(a[0], d + 1), ", ".join([pp(x, d + 1) for x in a[1]] + ["%s=%s" % (k, pp(x, d + 1)) for k, x in a[2]]))
        if v.op == "new":
            return "new %s(%s)" % (pp(a[0], d + 1), ", ".join([pp(x, d + 1) for x in a[1]] + ["%s=%s" % (k, pp(x, d + 1)) for k, x in a[2]]))
        if v.op == "tuple":
            return "(%s)" % ", ".join(pp(x, d + 1) for x in a)
        return "%s(%s)" % (v.op, ", ".join(pp(x, d + 1) for x in a))
    if isinstance(v, tuple):
        return "(%s)" % ", ".join(pp(x, d + 1) for x in v)
    if isinstance(v, frozenset):
        return "{%s}" % ", ".join(sorted(pp(x, d + 1) for x in v))
    return repr(v)


def ppfacts(facts):
    items = facts.items() if isinstance(facts, dict) else facts
    return " & ".join(sorted(("" if b else "!") + pp(a) for a, b in items)) or "true"


def ppev(e, ind=0):
    pad = "  " * ind
    if e.kind == "loop":
        s = pad + "loop over %s @%s" % (pp(e.a[0]), e.site)
        for b in e.a[1]:
            s += "\n" + pad + "  [%s]%s" % (ppfacts(b.facts), (" -> %s" % (b.sig,)) if b.sig else "")
            for x in b.events:
                s += "\n" + ppev(x, ind + 2)
        return s
    if e.kind == "call":
        fn, args, kw = e.a
        return pad + "call %s(%s) @%s" % (pp(fn), ", ".join([pp(x) for x in args] + ["%s=%s" % (k, pp(x)) for k, x in kw]), e.site)
    return pad + "%s %s @%s" % (e.kind, ", ".join(pp(x) for x in e.a), e.site)
