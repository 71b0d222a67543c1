"""Attributes, items, containers."""

import ast
import builtins as _bi

from .interp import *

STR_METHODS = set(dir(str)) | set(dir(bytes))
PURE_METHODS = {
    "startswith", "endswith", "split", "rsplit", "strip", "rstrip", "lstrip", "replace", "lower", "upper", "title", "keys", "values", "items",
    "iteritems", "itervalues", "format", "join", "encode", "decode", "count", "index", "search", "search_one", "match", "fullmatch", "sub",
    "find", "rfind", "partition", "rpartition", "splitlines", "isdigit", "copy", "xpath", "getparent", "getchildren", "group", "groups", "quantize", "zfill", "isidentifier",
    "casefold", "removeprefix", "removesuffix", "union", "intersection", "difference", "issubset", "issuperset",
}


class Objects(object):
    # ------------------------------------------------------------ attributes
    def getattr_(self, st, o, name, node, fr):
        """name: a value.  -> outcomes"""
        if isinstance(name, C):
            nm = name.v
            if isinstance(o, ModVal):
                e = st.env.get("m:" + o.name) or self.base.env.get("m:" + o.name)
                v = e.get(nm)
                if v is not None:
                    return [(st, v)]
                return [(st, T("ext", o.name + "." + nm))]
            if isinstance(o, ClassVal):
                v = self.class_lookup(st, o, nm)
                if v is not None:
                    return [(st, self.bind_class_attr(v, o))]
                if nm == "__name__":
                    return [(st, C(o.name))]
                return [(st, self.P(T("attr", o, name)))]
            if isinstance(o, FuncVal):
                if nm == "__name__":
                    return [(st, C(o.name))]
                return [(st, T("attr", o, name))]
            if isinstance(o, (Ref, C)) or (isinstance(o, Term) and o.op in ("str", "tuple", "list", "dict", "tuplegen", "tostr", "repr")):
                v = st.attrs.get((o, name))
                if v is not None:
                    return [(st, v)]
                return [(st, T("method", o, name))]
            if isinstance(o, Term):
                if o.op == "ext":
                    return [(st, self.P(T("ext", o.args[0] + "." + nm)))]
                if o.op == "exttype":
                    return [(st, T("ext", o.args[0] + "." + nm))]
                if o.op == "super":
                    return self.super_attr(st, o, name)
                v = st.attrs.get((o, name))
                if v is not None:
                    return [(st, v)]
                if nm == "__class__":
                    return [(st, self.type_of(st, o))]
                cv = self.typeof(o)
                if cv is not None:
                    cvv = self.class_lookup(st, cv, nm)
                    if cvv is not None:
                        if isinstance(cvv, FuncVal):
                            if cvv.kind == "staticmethod":
                                return [(st, cvv)]
                            if cvv.kind == "classmethod":
                                return [(st, Bound(cvv, cv))]
                            return [(st, Bound(cvv, o))]
                        if isinstance(cvv, Term) and cvv.op == "property":
                            return self.call(st, cvv.args[0], (o,), (), node, fr)
                        if isinstance(cvv, Term) and cvv.op == "decorated" and isinstance(cvv.args[0], FuncVal):
                            return [(st, T("attr", o, name))]
                        return [(st, cvv)]
                if o.op == "exc" and nm == "args":
                    return [(st, tup(o.args[1]))]
                if nm == "_asdict":
                    pass
                return [(st, self.P(T("attr", o, name)))]
            if isinstance(o, Bound):
                return [(st, T("attr", o, name))]
        # dynamic name
        v = st.attrs.get((o, name))
        if v is not None:
            return [(st, v)]
        if isinstance(o, Ref):
            return [(st, T("attr", o, name))]
        return [(st, self.P(T("attr", o, name)))]

    def bind_class_attr(self, v, cv):
        if isinstance(v, FuncVal) and v.kind == "classmethod":
            return Bound(v, cv)
        return v

    def super_attr(self, st, sup, name):
        cls, obj = sup.args
        cv = self.typeof(obj) if not isinstance(obj, ClassVal) else obj
        chain = self.mro(cv) if cv is not None else (self.mro(cls) if isinstance(cls, ClassVal) else [])
        if cls in chain:
            chain = chain[chain.index(cls) + 1:]
        elif isinstance(cls, ClassVal):
            chain = self.mro(cls)[1:]
        for c in chain:
            if isinstance(c, ClassVal):
                v = c.ns.get(name.v)
                if v is not None:
                    if isinstance(v, FuncVal) and v.kind != "staticmethod":
                        return [(st, Bound(v, obj))]
                    return [(st, v)]
            else:
                break
        return [(st, T("attr", sup, name))]

    def type_of(self, st, v):
        if isinstance(v, C):
            return T("exttype", type(v.v).__name__)
        if isinstance(v, Ref):
            h = st.h(v)
            return T("exttype", h.kind if isinstance(h, HList) else "dict")
        cv = self.typeof(v)
        if cv is not None:
            return cv
        if isinstance(v, Term):
            if v.op == "new":
                return v.args[0]
            if v.op == "exc":
                return v.args[0]
            if v.op in ("str", "tostr", "repr"):
                return T("exttype", "str")
            if v.op == "tuple":
                return T("exttype", "tuple")
        if isinstance(v, ClassVal) or (isinstance(v, Term) and v.op == "exttype"):
            return T("exttype", "type")
        return T("type", v)

    def hasattr_(self, st, o, name):
        """-> bool or atom"""
        if isinstance(name, C) and isinstance(name.v, str):
            nm = name.v
            if (o, name) in st.attrs:
                return True
            cv = o if isinstance(o, ClassVal) else self.typeof(o)
            if cv is not None:
                if self.class_lookup(st, cv, nm) is not None:
                    return True
                if nm in self.instance_attrs(cv):
                    return True
                if not isinstance(o, ClassVal) and cv.module in self.closed_mods and self.class_closed(cv):
                    return hasattr(object, nm)
                if isinstance(o, ClassVal) and self.class_closed(cv) and not hasattr(object, nm):
                    return False
            if isinstance(o, C):
                return hasattr(o.v, nm)
            if isinstance(o, Ref):
                h = st.h(o)
                t = {"list": list, "set": set, "deque": list}[h.kind] if isinstance(h, HList) else dict
                return hasattr(t, nm)
            if isinstance(o, Term) and o.op in ("str", "tostr", "repr"):
                return hasattr(str, nm)
            if isinstance(o, Term) and o.op in ("tuple", "tuplegen"):
                return hasattr(tuple, nm)
            if isinstance(o, Term) and o.op == "exttype" and isinstance(getattr(_bi, o.args[0], None), type):
                return hasattr(getattr(_bi, o.args[0]), nm)
            if isinstance(o, FuncVal):
                return nm.startswith("__") and hasattr(lambda: 0, nm)
            if isinstance(o, ModVal):
                return nm in (st.env.get("m:" + o.name) or {})
        return T("hasattr", o, name)

    def instance_attrs(self, cv):
        """Attributes every instance gets from an unconditional self.x = ... in a constructor."""
        cache = self.__dict__.setdefault("_iattrs", {})
        if cv in cache:
            return cache[cv]
        out = set()
        for c in self.mro(cv):
            if not isinstance(c, ClassVal):
                continue
            f = c.ns.get("__init__")
            if isinstance(f, FuncVal) and f.node.args.args:
                sf = f.node.args.args[0].arg
                for x in f.node.body:
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sf:
                                a = t.attr
                                if a.startswith("__") and not a.endswith("__"):
                                    a = "_%s%s" % (c.name.lstrip("_"), a)
                                out.add(a)
        cache[cv] = out
        return out

    def setattr_(self, st, o, name, v, node, fr):
        cv = self.typeof(o)
        if cv is not None and isinstance(name, C):
            p = self.class_lookup(st, cv, name.v)
            if isinstance(p, Term) and p.op == "property" and isinstance(p.args[1], FuncVal):
                return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(st, p.args[1], (o, v), (), node, fr)]
        st.attrs[(o, name)] = v
        if not (isinstance(o, Ref)):
            st.emit("setattr", (o, name, self.freeze(st, v)), self.site(node, fr))
        return [(st, None)]

    # ------------------------------------------------------------ dict helpers
    def dict_find(self, st, h, k):
        """('hit', v) | ('miss',) | ('unknown',)"""
        amb = False
        for i in reversed(h.items):
            if isinstance(i, tuple):
                e = self.eq_(st, i[0], k)
                d = e if isinstance(e, bool) else decide(st.facts, e)
                if d is True:
                    return ("unknown",) if amb else ("hit", i[1])
                if d is None:
                    amb = True
            elif isinstance(i, Gen):
                if i.key is k:
                    return ("unknown",) if amb else ("hit", i.value)
                amb = True
            else:
                amb = True
        return ("unknown",) if amb else ("miss",)

    def dict_put(self, st, h, k, v):
        items = list(h.items)
        for n, i in enumerate(items):
            if isinstance(i, tuple) and (i[0] is k or self.eq_(st, i[0], k) is True):
                # later ambiguous stores would have to win
                if all(isinstance(j, tuple) and (self.eq_(st, j[0], k) is False) for j in items[n + 1:]):
                    items[n] = (i[0], v)
                    return HDict(tuple(items))
        items.append((k, v))
        return HDict(tuple(items))

    def dict_merge(self, st, h, v):
        if isinstance(v, Ref) and isinstance(st.h(v), HDict):
            for i in st.h(v).items:
                if isinstance(i, tuple):
                    h = self.dict_put(st, h, i[0], i[1])
                else:
                    h = HDict(h.items + (i,))
            return h
        if isinstance(v, Term) and v.op == "dict":
            for i in v.args:
                h = HDict(h.items + (i,)) if not isinstance(i, tuple) else self.dict_put(st, h, i[0], i[1])
            return h
        if isinstance(v, C) and v.v is None:
            return h
        return HDict(h.items + (Splice(v),))

    def dict_from(self, st, v):
        """HDict for dict(v)"""
        if v is None:
            return HDict(())
        if isinstance(v, Ref) and isinstance(st.h(v), HList):
            h = HDict(())
            for i in st.h(v).items:
                if isinstance(i, Gen):
                    if isinstance(i.value, Term) and i.value.op == "tuple" and len(i.value.args) == 2:
                        h = HDict(h.items + (Gen(i.it, i.facts, i.value.args[1], i.value.args[0]),))
                    else:
                        h = HDict(h.items + (Splice(T("gens", i)),))
                elif isinstance(i, Splice):
                    h = HDict(h.items + (i,))
                else:
                    if isinstance(i, Term) and i.op == "tuple" and len(i.args) == 2:
                        h = self.dict_put(st, h, i.args[0], i.args[1])
                    else:
                        h = self.dict_put(st, h, self.item(st, i, C(0)), self.item(st, i, C(1)))
            return h
        if isinstance(v, Term) and v.op == "tuple" and not any(isinstance(i, (Gen, Splice)) for i in v.args):
            h = HDict(())
            for i in v.args:
                if isinstance(i, Term) and i.op == "tuple" and len(i.args) == 2:
                    h = self.dict_put(st, h, i.args[0], i.args[1])
                else:
                    h = self.dict_put(st, h, self.item(st, i, C(0)), self.item(st, i, C(1)))
            return h
        if isinstance(v, Term) and v.op in ("zip", "enumerate", "items"):
            segs = self.segments(st, v)
            if all(s[0] == "item" and isinstance(s[1], Term) and s[1].op == "tuple" and len(s[1].args) == 2 for s in segs):
                return self.dict_from(st, tup([s[1] for s in segs]))
        return self.dict_merge(st, HDict(()), v)

    # ------------------------------------------------------------ items
    def item(self, st, o, k):
        """Value of o[k] when it exists."""
        if isinstance(o, Term) and o.op in ("list_of", "tuple_of", "iter", "copy") and isinstance(k, (C, Term)):
            o = o.args[0]
        if isinstance(o, Term) and o.op in ("tuple", "list") and isinstance(k, C) and isinstance(k.v, int):
            if -len(o.args) <= k.v < len(o.args) and not any(isinstance(a, (Gen, Splice)) for a in o.args):
                return o.args[k.v]
        if isinstance(o, Term) and o.op == "concat" and isinstance(k, C) and k.v == -1 and isinstance(o.args[-1], V):
            return o.args[-1]
        if isinstance(o, Ref):
            h = st.h(o)
            if isinstance(h, HList) and isinstance(k, C) and isinstance(k.v, int) and not isinstance(k.v, bool):
                if h.known() and -len(h.items) <= k.v < len(h.items):
                    return h.items[k.v]
                if k.v >= 0 and k.v < len(h.items) and not any(isinstance(i, (Gen, Splice)) for i in h.items[: k.v + 1]):
                    return h.items[k.v]
                if k.v == -1 and h.items and not isinstance(h.items[-1], (Gen, Splice)):
                    return h.items[-1]
            if isinstance(h, HList) and len(h.items) == 1 and isinstance(h.items[0], Gen) and isinstance(k, Term) and k.op == "idx" and not h.items[0].facts:
                if k.args[0] is h.items[0].it:
                    return h.items[0].value
            if isinstance(h, HList) and len(h.items) == 1 and isinstance(h.items[0], Splice):
                return self.item(st, h.items[0].term, k)
            if isinstance(h, HDict):
                r = self.dict_find(st, h, k)
                if r[0] == "hit":
                    return r[1]
                sp = [i for i in h.items if isinstance(i, Splice)]
                if len(sp) == 1 and all(isinstance(i, Splice) or (isinstance(i, tuple) and (self.eq_(st, i[0], k) is False)) for i in h.items):
                    return self.P(T("item", sp[0].term, k))
        if isinstance(o, C) and isinstance(o.v, (str, bytes, tuple)) and isinstance(k, C) and isinstance(k.v, int):
            if -len(o.v) <= k.v < len(o.v):
                return C(o.v[k.v])
        if isinstance(k, Term) and k.op == "sliceobj":
            lo, hi, stp = k.args
            if isinstance(o, Term) and o.op == "tuple" and all(isinstance(x, C) for x in k.args):
                return tup(o.args[lo.v:hi.v:stp.v])
            if isinstance(o, C) and isinstance(o.v, (str, bytes)) and all(isinstance(x, C) for x in k.args):
                return C(o.v[lo.v:hi.v:stp.v])
            if isinstance(o, Ref) and isinstance(st.h(o), HList) and st.h(o).known() and all(isinstance(x, C) for x in k.args):
                return st.alloc(HList("list", st.h(o).items[lo.v:hi.v:stp.v]))
            if is_str(o) and isinstance(lo, C) and lo.v is None and isinstance(hi, C) and isinstance(hi.v, int) and hi.v < 0 and stp is NONE:
                p = str_parts(o)
                if p and isinstance(p[-1], C) and len(p[-1].v) >= -hi.v:
                    return mkstr(p[:-1] + (C(p[-1].v[: hi.v]),))
            if lo is NONE and hi is NONE and stp is NONE:
                return self.mkcopy(st, o)
            if isinstance(o, Ref):
                o = self.freeze(st, o)
            return T("slice", o, lo, hi, stp) if stp is not NONE else T("slice", o, lo, hi)
        if isinstance(k, Term) and k.op == "idx" and isinstance(o, Term) and k.args[0] is o:
            return T("elem", o, k.args[1])
        return self.P(T("item", o, k))

    def mkcopy(self, st, o):
        if isinstance(o, Ref):
            return st.alloc(st.h(o))
        if isinstance(o, (C, FuncVal, ClassVal)) or (isinstance(o, Term) and o.op in ("tuple", "str")):
            return o
        return T("copy", o)

    def getitem(self, st, o, k, node, fr):
        if isinstance(o, Ref):
            h = st.h(o)
            if isinstance(h, HDict):
                r = self.dict_find(st, h, k)
                if r[0] == "hit":
                    return [(st, r[1])]
                if r[0] == "miss":
                    return [(st, Raise(T("exc", T("exttype", "KeyError"), (k,))))]
                v = self.item(st, o, k)
                return self.maybe_missing(st, self.in_(st, k, o), "KeyError", k, v)
            if isinstance(k, C) and (isinstance(k.v, str) or k.v is None):
                return [(st, Raise(T("exc", T("exttype", "TypeError"), ())))]
            if isinstance(k, C) and isinstance(k.v, int) and h.known() and not (-len(h.items) <= k.v < len(h.items)):
                return [(st, Raise(T("exc", T("exttype", "IndexError"), ())))]
            return [(st, self.item(st, o, k))]
        if isinstance(o, Term) and o.op == "tuple" and isinstance(k, C) and isinstance(k.v, int):
            if not (-len(o.args) <= k.v < len(o.args)):
                return [(st, Raise(T("exc", T("exttype", "IndexError"), ())))]
            return [(st, o.args[k.v])]
        if isinstance(o, Term) and o.op == "tuple" and isinstance(k, C) and isinstance(k.v, str):
            return [(st, Raise(T("exc", T("exttype", "TypeError"), ())))]
        cv = self.typeof(o)
        if cv is not None:
            g = self.class_lookup(st, cv, "__getitem__")
            if isinstance(g, FuncVal):
                return self.call(st, g, (o, k), (), node, fr)
        v = self.item(st, o, k)
        if self.trydepth and isinstance(o, Term) and not (isinstance(v, C) or (isinstance(k, Term) and k.op in ("sliceobj", "idx", "elem"))):
            if isinstance(k, C) and isinstance(k.v, int) and not isinstance(k.v, bool):
                if k.v in (0, -1):
                    at = self.as_bool(st, o)
                else:
                    at = self.lt_(st, k, T("len", o)) if k.v > 0 else True
                exc = "IndexError" if self.is_seq(o) else C("LookupError")
                return self.maybe_missing(st, at, exc, k, v)
            return self.maybe_missing(st, self.in_(st, k, o), C("LookupError") if not (isinstance(k, C) and isinstance(k.v, str)) else "KeyError", k, v)
        return [(st, v)]

    def is_seq(self, o):
        return isinstance(o, Term) and (o.op in ("varargs", "tuple", "list", "concat") or (o.op == "call" and isinstance(o.args[0], Term) and o.args[0].op in ("attr", "method") and o.args[0].args[1] is C("split")))

    def maybe_missing(self, st, present, exc, k, v):
        if present is True:
            return [(st, v)]
        et = T("exc", T("exttype", exc) if isinstance(exc, str) else exc, (k,))
        if present is False:
            return [(st, Raise(et))]
        a, pol = split_not(present)
        d = decide(st.facts, a)
        if d is not None:
            return [(st, v)] if d == pol else [(st, Raise(et))]
        if not self.trydepth:
            return [(st, v)]
        out = []
        for s, b in self.truth(st, present):
            out.append((s, v if b else Raise(et)))
        return out

    def setitem(self, st, o, k, v, node, fr):
        if isinstance(o, Ref):
            h = st.h(o)
            if isinstance(h, HDict):
                st.heap[o.id] = self.dict_put(st, h, k, v)
                return [(st, None)]
            if isinstance(k, C) and isinstance(k.v, int) and h.known() and -len(h.items) <= k.v < len(h.items):
                it = list(h.items)
                it[k.v] = v
                st.heap[o.id] = HList(h.kind, tuple(it))
                return [(st, None)]
            if h.known() and isinstance(k, C) and isinstance(k.v, int):
                return [(st, Raise(T("exc", T("exttype", "IndexError"), (k,))))]
            st.heap[o.id] = HList(h.kind, (Splice(T("setitem", self.freeze(st, o), k, v)),))
            return [(st, None)]
        cv = self.typeof(o)
        if cv is not None:
            g = self.class_lookup(st, cv, "__setitem__")
            if isinstance(g, FuncVal):
                return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(st, g, (o, k, v), (), node, fr)]
        st.emit("setitem", (o, self.freeze(st, k), self.freeze(st, v)), self.site(node, fr))
        return [(st, None)]

    def delitem(self, st, o, k, node, fr):
        if isinstance(o, Ref):
            h = st.h(o)
            if isinstance(h, HDict):
                r = self.dict_find(st, h, k)
                if r[0] == "hit":
                    items = tuple(i for i in h.items if not (isinstance(i, tuple) and self.eq_(st, i[0], k) is True))
                    st.heap[o.id] = HDict(items)
                    return [(st, None)]
                if r[0] == "miss":
                    return [(st, Raise(T("exc", T("exttype", "KeyError"), (k,))))]
                outs = []
                for s, b in self.truth(st, self.in_(st, k, o)):
                    if b:
                        s.heap[o.id] = HDict((Splice(T("without", self.freeze(s, o), k)),))
                        outs.append((s, None))
                    else:
                        outs.append((s, Raise(T("exc", T("exttype", "KeyError"), (k,)))))
                return outs
            if h.known() and isinstance(k, C) and isinstance(k.v, int) and -len(h.items) <= k.v < len(h.items):
                it = list(h.items)
                del it[k.v]
                st.heap[o.id] = HList(h.kind, tuple(it))
                return [(st, None)]
            if h.known() and isinstance(k, C) and isinstance(k.v, int):
                return [(st, Raise(T("exc", T("exttype", "IndexError"), (k,))))]
            st.heap[o.id] = HList(h.kind, (Splice(T("without", self.freeze(st, o), k)),))
            return [(st, None)]
        cv = self.typeof(o)
        if cv is not None:
            g = self.class_lookup(st, cv, "__delitem__")
            if isinstance(g, FuncVal):
                return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(st, g, (o, k), (), node, fr)]
        outs = []
        if self.trydepth:
            for s, b in self.truth(st, self.in_(st, k, o)):
                if b:
                    s.emit("delitem", (o, self.freeze(s, k)), self.site(node, fr))
                    outs.append((s, None))
                else:
                    outs.append((s, Raise(T("exc", T("exttype", "KeyError"), (k,)))))
            return outs
        st.emit("delitem", (o, self.freeze(st, k)), self.site(node, fr))
        return [(st, None)]

    def list_extend(self, st, a, b):
        h = st.h(a)
        add = self.spread(st, b)
        items = h.items + tuple(add)
        if h.kind == "set":
            items = dedupe(items)
        st.heap[a.id] = HList(h.kind, items)
        return [(st, NONE)]

    def isinst(self, st, v, cls):
        """-> value (C(bool) or atom)"""
        if isinstance(cls, Term) and cls.op == "tuple":
            rs = [self.isinst(st, v, c) for c in cls.args]
            if any(r is TRUE for r in rs):
                return TRUE
            rs = [r for r in rs if r is not FALSE]
            if not rs:
                return FALSE
            return rs[0] if len(rs) == 1 else T("or", *rs)
        n = clsname(cls)
        if isinstance(v, C):
            r = const_isinst(v.v, cls)
            if r is not None:
                return cbool(r)
        if isinstance(v, Ref):
            h = st.h(v)
            k = h.kind if isinstance(h, HList) else "dict"
            if n in ("list", "dict", "set", "tuple", "str", "int", "float", "bytes"):
                return cbool(n == k)
            if n == "OrderedDict":
                return T("isinst", self.freeze(st, v), cls)
        if isinstance(v, Term):
            k = {"str": "str", "tostr": "str", "repr": "str", "tuple": "tuple", "list": "list", "concat": "list", "dict": "dict", "set": "set", "len": "int", "idx": "int", "varargs": "tuple"}.get(v.op)
            if k and n in ("list", "dict", "set", "tuple", "str", "int", "float", "bytes"):
                return cbool(n == k)
            cv = self.typeof(v)
            if cv is not None and isinstance(cls, ClassVal):
                if cls in self.mro(cv):
                    return TRUE
            if v.op == "exc":
                m = self.exc_matches(v, cls)
                if m is not None:
                    return cbool(m)
        if isinstance(v, (FuncVal, Bound)) and n in ("list", "dict", "set", "tuple", "str", "int", "float"):
            return FALSE
        if isinstance(v, ClassVal) and n in ("list", "dict", "set", "tuple", "str", "int", "float"):
            return FALSE
        a = T("isinst", v, cls)
        d = decide(st.facts, a)
        return a if d is None else cbool(d)


def dedupe(items):
    out = []
    for i in items:
        if i not in out:
            out.append(i)
    return tuple(out)
