"""Abstract machine state and its fact base (what is known on one partition of the executions)."""

import decimal

from .vals import *


class State(object):
    __slots__ = ("env", "heap", "attrs", "facts", "events", "ctr", "cap")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.attrs = {}
        self.facts = {}
        self.events = ()
        self.ctr = 0
        self.cap = frozenset()

    def clone(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.facts = dict(self.facts)
        s.events = self.events
        s.ctr = self.ctr
        s.cap = self.cap
        return s

    def fresh(self):
        self.ctr += 1
        return self.ctr

    # environments -----------------------------------------------------
    def setvar(self, eid, name, v):
        e = dict(self.env[eid])
        e[name] = v
        self.env[eid] = e

    def delvar(self, eid, name):
        e = dict(self.env[eid])
        e.pop(name, None)
        self.env[eid] = e

    # heap ---------------------------------------------------------------
    def alloc(self, h):
        r = Ref(self.fresh())
        self.heap[r.id] = h
        return r

    def h(self, ref):
        return self.heap[ref.id]

    def emit(self, kind, a, site=None):
        self.events = self.events + (Ev(kind, a, site),)


# ---------------------------------------------------------------- atoms
def atom_eq(a, b):
    """Canonical equality atom (or a constant bool)."""
    if a is b:
        return True
    if isinstance(a, C) and not isinstance(b, C):
        a, b = b, a
    if isinstance(a, C) and isinstance(b, C):
        if type(a.v) is type(b.v):
            return a.v == b.v
        if isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)):
            return a.v == b.v
        return False
    if isinstance(b, C):
        if isinstance(a, Term):
            if a.op in ("tuple", "str", "new", "obj", "list", "dict", "set", "tuplegen") and not (a.op == "str" and isinstance(b.v, str)):
                return False
            if a.op == "str" and isinstance(b.v, str):
                p0, p1 = a.args[0], a.args[-1]
                if isinstance(p0, C) and not b.v.startswith(p0.v):
                    return False
                if isinstance(p1, C) and not b.v.endswith(p1.v):
                    return False
                if sum(len(p.v) for p in a.args if isinstance(p, C)) > len(b.v):
                    return False
                if len(a.args) == 2 and isinstance(p0, C):
                    return atom_eq(T("tostr", a.args[1]) if not _strlike(a.args[1]) else a.args[1], C(b.v[len(p0.v):]))
            if a.op == "len" and isinstance(b.v, int):
                if b.v == 0:
                    return T("not", T("truthy", a.args[0]))
                if b.v < 0:
                    return False
            if a.op == "tostr" and not isinstance(b.v, str):
                return False
            if a.op in ATOMS and isinstance(b.v, bool):
                return a if b.v else T("not", a)
            if a.op == "not" and isinstance(b.v, bool):
                return a if b.v else neg(a)
        elif isinstance(a, (Ref, FuncVal, ClassVal, ModVal, Bound)):
            return False
        return T("eq", a, b)
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op == "tuple" and b.op == "tuple" and len(a.args) != len(b.args):
            return False
        if a.op == "exttype" and b.op == "exttype":
            return False
    if isinstance(a, ClassVal) and isinstance(b, ClassVal):
        return False
    if isinstance(a, ClassVal) and isinstance(b, Term) and b.op == "exttype" or \
            isinstance(b, ClassVal) and isinstance(a, Term) and a.op == "exttype":
        return False
    if _ordkey(a) > _ordkey(b):
        a, b = b, a
    return T("eq", a, b)


def _strlike(v):
    return is_str(v) or (isinstance(v, Term) and v.op in ("tostr", "elem", "item", "param", "attr", "call"))


_ord = {}


def _ordkey(v):
    k = _ord.get(v)
    if k is None:
        k = len(_ord)
        _ord[v] = k
    return k


ATOMS = ("truthy", "eq", "is", "lt", "in", "inset", "isinst", "hasattr", "exists", "raises", "issub", "callable", "or")


def neg(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, Term) and v.op == "not":
        return v.args[0]
    return T("not", v)


def split_not(v):
    """-> (atom, polarity)"""
    pol = True
    while isinstance(v, Term) and v.op == "not":
        v = v.args[0]
        pol = not pol
    return v, pol


DISJOINT = [("str", "int", "float", "list", "dict", "tuple", "set", "bytes", "NoneType", "Decimal", "callable")]
SUBTYPES = {("bool", "int"), ("OrderedDict", "dict"), ("SerialisedTypedList", "list"), ("YANGBool", "int")}
_SIMPLE = {"str", "int", "float", "list", "dict", "tuple", "set", "bytes", "Decimal"}


def clsname(v):
    if isinstance(v, ClassVal):
        return v.name
    if isinstance(v, Term):
        if v.op in ("exttype", "ext"):
            return v.args[0].rsplit(".", 1)[-1]
    return None


def type_rel(known, asked):
    """given isinst(x, known) true: is isinst(x, asked) implied True/False/None"""
    k, a = clsname(known), clsname(asked)
    if known is asked or (k and k == a):
        return True
    if (k, a) in SUBTYPES:
        return True
    base = {"bool": "int", "OrderedDict": "dict", "SerialisedTypedList": "list", "YANGBool": "int"}
    kb, ab = base.get(k, k), base.get(a, a)
    if kb in _SIMPLE and ab in _SIMPLE and kb != ab:
        return False
    if k in ("bool",) and a == "YANGBool":
        return False
    return None


def decide(facts, atom):
    """True/False if the atom is settled by the facts, else None."""
    if isinstance(atom, bool):
        return atom
    if isinstance(atom, C):
        return bool(atom.v)
    if not isinstance(atom, Term):
        return True
    if atom.op == "not":
        r = decide(facts, atom.args[0])
        return None if r is None else not r
    r = facts.get(atom)
    if r is not None:
        return r
    op = atom.op
    if op == "or":
        ds = [decide(facts, a) for a in atom.args]
        if any(d is True for d in ds):
            return True
        if all(d is False for d in ds):
            return False
        return None
    if op == "truthy":
        x = atom.args[0]
        for a, b in facts.items():
            if not isinstance(a, Term):
                continue
            if a.op == "eq" and b and a.args[0] is x and isinstance(a.args[1], C):
                return bool(a.args[1].v)
            if a.op == "inset" and b and a.args[0] is x:
                vals = {bool(c.v) for c in a.args[1]}
                if len(vals) == 1:
                    return vals.pop()
            if a.op == "eq" and b and isinstance(a.args[0], Term) and a.args[0].op == "len" and a.args[0].args[0] is x and isinstance(a.args[1], C):
                return a.args[1].v != 0
            if a.op == "lt" and b and isinstance(a.args[1], Term) and a.args[1].op == "len" and a.args[1].args[0] is x:
                if isinstance(a.args[0], C) and a.args[0].v >= 0:
                    return True
            if a.op == "is" and b and a.args[0] is x and isinstance(a.args[1], C):
                return bool(a.args[1].v)
            if a.op == "in" and b and a.args[1] is x:
                return True
            if a.op == "exists" and b and a.args[0] is x:
                return True
        if isinstance(x, Term) and x.op == "len":
            return decide(facts, T("truthy", x.args[0]))
        return None
    if op == "eq":
        x, c = atom.args
        if isinstance(c, C):
            for a, b in facts.items():
                if not isinstance(a, Term):
                    continue
                if a.op == "eq" and b and a.args[0] is x and isinstance(a.args[1], C) and a.args[1] is not c:
                    v1, v2 = a.args[1].v, c.v
                    if isinstance(v1, (bool, int)) and isinstance(v2, (bool, int)) and v1 == v2:
                        return True
                    return False
                if a.op == "inset" and a.args[0] is x:
                    if b and c not in a.args[1]:
                        return False
                    if b and a.args[1] == frozenset((c,)):
                        return True
                    if not b and c in a.args[1]:
                        return False
                if a.op == "is" and b and a.args[0] is x and isinstance(a.args[1], C):
                    return type(c.v) in (bool, int, float) and a.args[1].v == c.v
                if a.op == "truthy" and a.args[0] is x:
                    if b and not c.v:
                        return False
                    if not b and c.v:
                        return False
                if a.op == "isinst" and a.args[0] is x and b and c.v is None:
                    return False
                if a.op == "isinst" and a.args[0] is x and not b and isinstance(c.v, str) and clsname(a.args[1]) == "str":
                    return False
                if a.op == "isinst" and a.args[0] is x and b and isinstance(c.v, str) and clsname(a.args[1]) in _SIMPLE - {"str"}:
                    return False
                if a.op == "hasattr" and b and a.args[0] is x and c.v is None:
                    return False
            if isinstance(x, Term) and x.op == "len" and isinstance(c.v, int):
                t = decide(facts, T("truthy", x.args[0]))
                if t is False:
                    return c.v == 0
                if t is True and c.v == 0:
                    return False
        return None
    if op == "is":
        x, c = atom.args
        if isinstance(c, C):
            for a, b in facts.items():
                if not isinstance(a, Term) or not a.args or a.args[0] is not x:
                    continue
                if a.op == "is" and b and isinstance(a.args[1], C) and a.args[1] is not c:
                    return False
                if a.op == "eq" and isinstance(a.args[1], C):
                    if b and type(a.args[1].v) is not bool:
                        return False
                    if not b and a.args[1] is c:
                        return False
                if a.op == "truthy" and bool(c.v) != b:
                    return False
                if a.op == "isinst" and b and clsname(a.args[1]) in _SIMPLE - {"int"}:
                    return False
        return None
    if op == "inset":
        x, cs = atom.args
        excl = set()
        for a, b in facts.items():
            if not isinstance(a, Term) or not a.args or a.args[0] is not x:
                continue
            if a.op == "eq" and isinstance(a.args[1], C):
                if b:
                    return a.args[1] in cs
                excl.add(a.args[1])
            elif a.op == "inset":
                if b:
                    if a.args[1] <= cs:
                        return True
                    if not (a.args[1] & cs):
                        return False
                else:
                    excl |= a.args[1]
            elif a.op == "truthy":
                for c in cs:
                    if bool(c.v) != b:
                        excl.add(c)
            elif a.op == "isinst" and b and clsname(a.args[1]) in _SIMPLE:
                for c in cs:
                    if isinstance(c.v, str) and clsname(a.args[1]) != "str":
                        excl.add(c)
            elif a.op == "isinst" and not b and clsname(a.args[1]) == "str":
                for c in cs:
                    if isinstance(c.v, str):
                        excl.add(c)
        for a, b in facts.items():
            if isinstance(a, Term) and a.op == "inset" and b and a.args[0] is x:
                if not ((a.args[1] - excl) & cs):
                    return False
                if (a.args[1] - excl) <= cs:
                    return True
        if cs <= excl:
            return False
        return None
    if op == "isinst":
        x, k = atom.args
        for a, b in facts.items():
            if not isinstance(a, Term) or a.op not in ("isinst", "eq", "inset") or a.args[0] is not x:
                continue
            if a.op == "isinst" and b:
                r = type_rel(a.args[1], k)
                if r is not None:
                    return r
            elif a.op == "isinst" and not b:
                # not an instance of a base -> not an instance of a subtype
                if type_rel(k, a.args[1]) is True:
                    return False
            elif a.op == "eq" and b and isinstance(a.args[1], C):
                r = const_isinst(a.args[1].v, k)
                if r is not None:
                    return r
            elif a.op == "inset" and b:
                rs = {const_isinst(c.v, k) for c in a.args[1]}
                if len(rs) == 1:
                    return rs.pop()
        return None
    if op == "lt":
        a, b = atom.args
        if isinstance(a, Term) and a.op == "idx" and isinstance(b, Term) and b.op == "len" and a.args[0] is b.args[0]:
            return True
        if isinstance(a, C) and isinstance(b, Term) and b.op == "len" and isinstance(a.v, int):
            if a.v < 0:
                return True
            t = decide(facts, T("truthy", b.args[0]))
            if t is False:
                return False
            if t is True and a.v == 0:
                return True
        if facts.get(T("lt", b, a)) is True:
            return False
        if isinstance(b, C) and isinstance(a, Term) and a.op == "len" and b.v == 0:
            return False
        # a < b with known numeric equalities
        for f, v in facts.items():
            if v and isinstance(f, Term) and f.op == "eq" and isinstance(f.args[1], C):
                if f.args[0] is a and isinstance(b, C):
                    try:
                        return f.args[1].v < b.v
                    except TypeError:
                        pass
                if f.args[0] is b and isinstance(a, C):
                    try:
                        return a.v < f.args[1].v
                    except TypeError:
                        pass
        return None
    if op == "hasattr":
        x = atom.args[0]
        for a, b in facts.items():
            if isinstance(a, Term) and a.op == "eq" and b and a.args[0] is x and isinstance(a.args[1], C) and a.args[1].v is None:
                n = atom.args[1]
                if isinstance(n, C) and not hasattr(None, str(n.v)):
                    return False
            if isinstance(a, Term) and a.op == "isinst" and b and a.args[0] is x and isinstance(atom.args[1], C):
                k = clsname(a.args[1])
                if k in ("str", "int", "list", "dict", "bytes") and not atom.args[1].v.startswith("_"):
                    return hasattr({"str": str, "int": int, "list": list, "dict": dict, "bytes": bytes}[k], atom.args[1].v)
        return None
    if op == "in":
        k, d = atom.args
        if isinstance(k, Term) and k.op == "elem" and k.args[0] is d:
            return True
        if facts.get(T("truthy", d)) is False:
            return False
        return None
    if op == "exists":
        if facts.get(T("truthy", atom.args[0])) is False:
            return False
        return None
    return None


def const_isinst(v, k):
    n = clsname(k)
    types = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "dict": dict, "tuple": tuple, "bytes": bytes, "set": set, "OrderedDict": dict, "YANGBool": (), "Decimal": decimal.Decimal}
    if n in types:
        if n == "OrderedDict" or types[n] == ():
            return False
        return isinstance(v, types[n])
    if v is None or isinstance(v, (bool, int, str, float)):
        if isinstance(k, ClassVal):
            return False
        if isinstance(k, Term) and k.op == "exttype":
            import builtins
            b = getattr(builtins, k.args[0], None)
            if isinstance(b, type):
                return isinstance(v, b)
    return None


def assume(st, atom, val):
    """Add atom==val to the state's facts.  False if contradictory."""
    atom, pol = split_not(atom)
    if not pol:
        val = not val
    d = decide(st.facts, atom)
    if d is not None:
        return d == val
    if atom.op == "or" and not val:
        return all([assume(st, a, False) for a in atom.args])
    if atom.op == "inset" and val:
        # keep the narrowest
        x, cs = atom.args
        rem = frozenset(c for c in cs if decide(st.facts, T("eq", x, c)) is not False)
        if not rem:
            return False
        if len(rem) == 1:
            st.facts[T("eq", x, next(iter(rem)))] = True
            return True
        st.facts[T("inset", x, rem)] = True
        return True
    st.facts[atom] = val
    return True
