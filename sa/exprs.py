"""Expressions."""

import ast
import builtins as _bi
import operator

from .interp import *

_BIN = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv,
    "Mod": operator.mod, "Pow": operator.pow, "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor,
    "LShift": operator.lshift, "RShift": operator.rshift,
}
_SYM = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "BitOr": "|", "BitAnd": "&", "BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@"}


class Exprs(object):
    # ------------------------------------------------------------ helpers
    def eval(self, n, st, fr):
        return getattr(self, "e_" + type(n).__name__)(n, st, fr)

    def evals(self, nodes, st, fr):
        """Evaluate several expressions left to right: [(st, [vals]) | (st, Raise)]"""
        outs = [(st, [])]
        for n in nodes:
            nx = []
            for s, vals in outs:
                if isinstance(vals, Raise):
                    nx.append((s, vals))
                    continue
                rs = self.eval(n, s, fr)
                for s2, v in rs:
                    nx.append((s2, v if isinstance(v, Raise) else vals + [v]))
            outs = nx
        return outs

    def evals2(self, a, b, st, fr):
        out = []
        for s, vals in self.evals([a, b], st, fr):
            if isinstance(vals, Raise):
                out.append((s, (vals, None)))
            else:
                out.append((s, tuple(vals)))
        return out

    def P(self, t):
        """Apply the analysis partition's pins to a freshly built term."""
        if self.pin_fn is not None:
            v = self.pin_fn(t)
            if v is not None:
                return v
        return self.pin.get(t, t)

    def mangle(self, name, fr):
        if fr.mangle and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (fr.mangle.lstrip("_"), name)
        return name

    # ------------------------------------------------------------ leaves
    def e_Constant(self, n, st, fr):
        return [(st, C(n.value))]

    def getname(self, name, st, fr):
        name = self.mangle(name, fr)
        if name in fr.globals:
            scopes = ("m:" + fr.mod,)
        else:
            scopes = fr.scope
        for eid in scopes:
            e = st.env.get(eid)
            if e is None and isinstance(eid, str):
                e = self.base.env.get(eid)
            if e is not None and name in e:
                return e[name]
        e = st.env.get("m:" + fr.mod) or self.base.env.get("m:" + fr.mod, {})
        if name in e:
            return e[name]
        if hasattr(_bi, name):
            o = getattr(_bi, name)
            if isinstance(o, type):
                return T("exttype", name)
            return T("ext", name)
        return T("undef", C(name))

    def e_Name(self, n, st, fr):
        if n.id == "__class__" and fr.mangle:
            pass
        return [(st, self.getname(n.id, st, fr))]

    def e_Attribute(self, n, st, fr):
        out = []
        for s, o in self.eval(n.value, st, fr):
            if isinstance(o, Raise):
                out.append((s, o))
            else:
                out.extend(self.getattr_(s, o, C(self.mangle(n.attr, fr)), n, fr))
        return out

    def e_Subscript(self, n, st, fr):
        out = []
        for s, (o, k) in self.evals2(n.value, n.slice, st, fr):
            if isinstance(o, Raise):
                out.append((s, o))
            else:
                out.extend(self.getitem(s, o, k, n, fr))
        return out

    def e_Slice(self, n, st, fr):
        out = []
        for s, vals in self.evals([x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)], st, fr):
            out.append((s, vals if isinstance(vals, Raise) else T("sliceobj", *vals)))
        return out

    def e_Tuple(self, n, st, fr):
        return self._seq(n, st, fr, "tuple")

    def e_List(self, n, st, fr):
        return self._seq(n, st, fr, "list")

    def e_Set(self, n, st, fr):
        return self._seq(n, st, fr, "set")

    def _seq(self, n, st, fr, kind):
        out = []
        exprs = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for s, vals in self.evals(exprs, st, fr):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            items = []
            for e, v in zip(n.elts, vals):
                if isinstance(e, ast.Starred):
                    items.extend(self.spread(s, v))
                else:
                    items.append(v)
            if kind == "tuple":
                if any(isinstance(i, (Gen, Splice)) for i in items):
                    out.append((s, T("tuplegen", *items)))
                else:
                    out.append((s, tup(items)))
            else:
                out.append((s, s.alloc(HList(kind, tuple(items)))))
        return out

    def spread(self, st, v):
        """Entries contributed by iterating over v (for *v, list(v), extend(v))."""
        if isinstance(v, Term) and v.op == "tuple":
            return list(v.args)
        if isinstance(v, Ref):
            h = st.h(v)
            if isinstance(h, HList):
                return list(h.items)
            out = []
            for i in h.items:
                if isinstance(i, tuple):
                    out.append(i[0])
                elif isinstance(i, Gen):
                    out.append(Gen(i.it, i.facts, i.key))
                else:
                    out.append(i)
            return out
        if isinstance(v, C) and isinstance(v.v, str) and len(v.v) < 30:
            return [C(c) for c in v.v]
        if isinstance(v, Term) and v.op in ("list", "tuplegen"):
            return list(v.args)
        segs = self.segments(st, v)
        out = []
        for seg in segs:
            if seg[0] == "item":
                out.append(seg[1])
            else:
                _, it, elem, facts, base = seg
                if elem is T("elem", base, C(0)):
                    out.append(Splice(base))
                else:
                    out.append(Gen(base, frozenset(facts), elem))
        return out

    def e_Dict(self, n, st, fr):
        exprs = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        out = []
        for s, vals in self.evals(exprs, st, fr):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            h = HDict(())
            i = 0
            for k in n.keys:
                if k is None:
                    h = self.dict_merge(s, h, vals[i])
                    i += 1
                else:
                    h = self.dict_put(s, h, vals[i], vals[i + 1])
                    i += 2
            out.append((s, s.alloc(h)))
        return out

    def e_JoinedStr(self, n, st, fr):
        exprs = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, vals in self.evals(exprs, st, fr):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            it = iter(vals)
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(C(v.value))
                else:
                    x = next(it)
                    if v.conversion == 114:
                        x = self.repr_(s, x)
                    elif v.format_spec is not None and ast.dump(v.format_spec) != ast.dump(ast.JoinedStr(values=[])):
                        fs = v.format_spec.values
                        if all(isinstance(y, ast.Constant) for y in fs):
                            x = self.format_spec(s, x, "".join(y.value for y in fs))
                        else:
                            x = T("format", x, C(ast.unparse(v.format_spec)))
                    parts.append(self.fmt(s, x))
            out.append((s, mkstr(parts)))
        return out

    def fmt(self, st, v):
        """Value as interpolated with %s / {} / str()."""
        if isinstance(v, (C,)):
            return v
        if isinstance(v, Term) and v.op == "tostr":
            return v.args[0]
        r = self.render(st, v)
        return r if r is not None else self.freeze(st, v)

    def render(self, st, v, d=0):
        """The text of a container whose elements are known (None: not known)."""
        if d > 6:
            return None
        if isinstance(v, Term) and v.op == "tuple":
            items, kind = v.args, "tuple"
        elif isinstance(v, Ref):
            h = st.heap.get(v.id)
            if isinstance(h, HList):
                if not h.known() or (h.kind == "set" and len(h.items) != 1) or h.kind not in ("list", "set", "tuple"):
                    return None
                items, kind = h.items, h.kind
            elif isinstance(h, HDict):
                if not all(isinstance(i, tuple) for i in h.items):
                    return None
                parts = [C("{")]
                for n, (k, x) in enumerate(h.items):
                    if n:
                        parts.append(C(", "))
                    for y, sep in ((k, ": "), (x, "")):
                        r = self.repr_(st, y, d + 1)
                        parts.extend((r, C(sep)))
                return mkstr(parts + [C("}")])
            else:
                return None
        else:
            return None
        o, c = {"list": "[]", "tuple": "()", "set": "{}"}[kind]
        parts = [C(o)]
        for n, x in enumerate(items):
            if n:
                parts.append(C(", "))
            parts.append(self.repr_(st, x, d + 1))
        if kind == "tuple" and len(items) == 1:
            parts.append(C(","))
        return mkstr(parts + [C(c)])

    def repr_(self, st, v, d=0):
        if isinstance(v, C):
            return C(repr(v.v))
        r = self.render(st, v, d)
        if r is not None:
            return r
        if isinstance(v, Term) and v.op == "exttype" and isinstance(getattr(_bi, v.args[0], None), type):
            return C("<class %r>" % v.args[0])
        if is_str(v):
            return T("repr", v)
        return T("repr", self.freeze(st, v))

    def tostr(self, st, v):
        if isinstance(v, C):
            return C(str(v.v))
        if is_str(v) or (isinstance(v, Term) and v.op in ("tostr", "repr")):
            return v
        r = self.render(st, v)
        if r is not None:
            return r
        return T("tostr", self.freeze(st, v))

    def e_Lambda(self, n, st, fr):
        return self.make_func(n, n.args, st, fr)

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_NamedExpr(self, n, st, fr):
        out = []
        for s, v in self.eval(n.value, st, fr):
            if not isinstance(v, Raise):
                self.setname(n.target.id, v, s, fr)
            out.append((s, v))
        return out

    def e_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        if n.value is None:
            self._emit_yield(st, NONE, n, fr)
            return [(st, NONE)]
        out = []
        for s, v in self.eval(n.value, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                self._emit_yield(s, v, n, fr)
                out.append((s, NONE))
        return out

    def e_YieldFrom(self, n, st, fr):
        out = []
        for s, v in self.eval(n.value, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            outs = [(a, b) for a, b, _ in self.run_loop(s, v, lambda s3, e: [(self._emit_yield(s3, e, n, fr), None)], n, fr)]
            out.extend((s4, NONE if sig is None else sig) for s4, sig in outs)
        return out

    def _emit_yield(self, s, e, n, fr):
        acc = s.env.get(fr.eid, {}).get("$yield")
        if acc is not None:
            s.heap[acc.id] = HList("list", s.h(acc).items + (e,))
        else:
            s.emit("yield", (self.freeze(s, e),), self.site(n, fr))
        return s

    # ------------------------------------------------------------ operators
    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        cur = [st]
        out = []
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            nx = []
            for s in cur:
                for s2, v in self.eval(e, s, fr):
                    if isinstance(v, Raise) or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == isand:
                            nx.append(s3)
                        else:
                            if isinstance(v, Term) and (v.op in ATOMS or v.op == "not"):
                                v2 = cbool(b)
                            else:
                                v2 = v
                            out.append((s3, v2))
            cur = nx
        return self.merge(out)

    def e_IfExp(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.eval(n.body if b else n.orelse, s, fr))
        return self.merge(out)

    def e_UnaryOp(self, n, st, fr):
        out = []
        for s, v in self.eval(n.operand, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            if isinstance(n.op, ast.Not):
                b = self.as_bool(s, v)
                if not isinstance(b, bool):
                    a, pol = split_not(b)
                    d = decide(s.facts, a)
                    if d is not None:
                        b = d == pol
                out.append((s, cbool(not b) if isinstance(b, bool) else neg(b)))
            elif isinstance(v, C) and isinstance(v.v, (int, float)):
                x = v.v
                out.append((s, C(-x if isinstance(n.op, ast.USub) else (+x if isinstance(n.op, ast.UAdd) else ~int(x)))))
            else:
                out.append((s, T("u" + type(n.op).__name__, v)))
        return out

    def e_BinOp(self, n, st, fr):
        out = []
        for s, vals in self.evals([n.left, n.right], st, fr):
            if isinstance(vals, Raise):
                out.append((s, vals))
            else:
                out.extend(self.binop(type(n.op).__name__, vals[0], vals[1], s, n, fr))
        return out

    def binop(self, op, a, b, st, n, fr):
        if op == "Mod" and is_str(a):
            return [(st, self.percent(st, a, b))]
        if isinstance(a, C) and isinstance(b, C) and op in _BIN:
            try:
                if op in ("Pow", "LShift", "Mult") and isinstance(a.v, int) and isinstance(b.v, int) and (abs(b.v) > 200):
                    raise ValueError
                r = _BIN[op](a.v, b.v)
                if not isinstance(r, (str, bytes)) or len(r) < 5000:
                    return [(st, C(r))]
            except Exception:
                pass
        if op == "Add":
            if is_str(a) or is_str(b):
                return [(st, mkstr((a, b)))]
            la, lb = self.listy(st, a), self.listy(st, b)
            if la and lb:
                if isinstance(a, Term) and a.op == "tuple" and isinstance(b, Term) and b.op == "tuple":
                    return [(st, tup(a.args + b.args))]
                return [(st, st.alloc(HList("list", tuple(self.spread(st, a) + self.spread(st, b)))))]
            if lb or la:
                def parts(v):
                    if isinstance(v, Term) and v.op == "concat":
                        return list(v.args)
                    if self.listy(st, v):
                        fv = self.freeze(st, v)
                        return list(fv.args) if fv.op in ("list", "tuple") else [Splice(fv)]
                    return [Splice(v)]
                return [(st, T("concat", *(parts(a) + parts(b))))]
            if isinstance(a, Term) and a.op == "+":
                return [(st, T("+", *(a.args + (b,))))]
            return [(st, T("+", a, b))]
        if op == "BitOr" and isinstance(a, Ref) and isinstance(st.h(a), HDict):
            h = self.dict_merge(st, st.h(a), b)
            return [(st, st.alloc(h))]
        if op == "Mult" and isinstance(b, C) and b.v == 1:
            return [(st, a)]
        if op == "Mult" and isinstance(a, C) and a.v == 1:
            return [(st, b)]
        if op in ("Sub", "Add") and isinstance(b, C) and b.v == 0 and not isinstance(b.v, bool):
            return [(st, a)]
        return [(st, T(_SYM.get(op, op), self.freeze(st, a), self.freeze(st, b)))]

    def listy(self, st, v):
        if isinstance(v, Ref):
            return isinstance(st.h(v), HList)
        return isinstance(v, Term) and v.op in ("list", "tuple", "tuplegen")

    def percent(self, st, f, arg):
        vals = list(arg.args) if isinstance(arg, Term) and arg.op == "tuple" else [arg]
        parts = []
        i = 0
        mapping = isinstance(arg, Ref) and isinstance(st.h(arg), HDict)
        for p in str_parts(f):
            if not isinstance(p, C):
                parts.append(p)
                continue
            s = p.v
            j = 0
            buf = ""
            while j < len(s):
                if s[j] != "%":
                    buf += s[j]
                    j += 1
                    continue
                k = j + 1
                name = None
                if k < len(s) and s[k] == "(":
                    e = s.find(")", k)
                    name = s[k + 1:e]
                    k = e + 1
                m = k
                while m < len(s) and s[m] in "#0- +.123456789":
                    m += 1
                conv = s[m] if m < len(s) else "%"
                spec = s[k:m]
                if conv == "%":
                    buf += "%"
                    j = m + 1
                    continue
                if buf:
                    parts.append(C(buf))
                    buf = ""
                if name is not None and mapping:
                    r = self.dict_find(st, st.h(arg), C(name))
                    v = r[1] if r[0] == "hit" else T("item", arg, C(name))
                elif name is not None:
                    v = T("item", arg, C(name))
                elif i < len(vals) and (len(vals) > 1 or i == 0):
                    v = vals[i]
                    i += 1
                else:
                    v = T("item", self.freeze(st, arg), C(i))
                    i += 1
                if conv in "ra":
                    v = self.repr_(st, v)
                elif conv in "di" and not isinstance(v, C):
                    v = T("int", v)
                elif spec and conv not in "s":
                    x = None
                    y = self.val(st, v) if hasattr(self, "val") else v
                    if isinstance(y, C) and isinstance(y.v, (int, float)):
                        try:
                            x = C(("%" + spec + conv) % y.v)
                        except (TypeError, ValueError):
                            pass
                    v = x if x is not None else T("format", v, C(spec + conv))
                parts.append(self.fmt(st, v))
                j = m + 1
            if buf:
                parts.append(C(buf))
        return mkstr(parts)

    def e_Compare(self, n, st, fr):
        if len(n.ops) > 1:
            out = []
            for s, b in self.cond(n, st, fr):
                out.append((s, b if isinstance(b, Raise) else cbool(b)))
            return out
        out = []
        for s, vals in self.evals([n.left, n.comparators[0]], st, fr):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            a, b = vals
            op = type(n.ops[0]).__name__
            r = self.compare(s, op, a, b)
            if not isinstance(r, bool):
                at, pol = split_not(r)
                d = decide(s.facts, at)
                if d is not None:
                    r = d == pol
            out.append((s, cbool(r) if isinstance(r, bool) else r))
        return out

    def eq_value(self, st, a, b):
        r = self.compare(st, "Eq", a, b)
        return cbool(r) if isinstance(r, bool) else r

    def compare(self, st, op, a, b):
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            r = self.eq_(st, a, b, op in ("Is", "IsNot"))
            return r if op in ("Eq", "Is") else neg(r)
        if op in ("In", "NotIn"):
            r = self.in_(st, a, b)
            return r if op == "In" else neg(r)
        if op in ("Lt", "Gt", "LtE", "GtE"):
            if op in ("Gt", "LtE"):
                x, y = b, a   # a > b == b < a ; a <= b == not b < a
            else:
                x, y = a, b   # a < b ; a >= b == not a < b
            r = self.lt_(st, x, y)
            return r if op in ("Lt", "Gt") else neg(r)
        return T("truthy", T("cmp", C(op), a, b))

    def eq_(self, st, a, b, ident=False):
        if a is b:
            return True
        if ident and not isinstance(a, C) and not isinstance(b, C):
            if isinstance(a, Ref) or isinstance(b, Ref):
                return False
            if _ordkey2(a) > _ordkey2(b):
                a, b = b, a
            for x in (a, b):
                if isinstance(x, ClassVal) or isinstance(x, Term) and x.op == "exttype":
                    return atom_eq(a, b)
            return T("is", a, b)
        for x, y in ((a, b), (b, a)):
            # what matching a regular expression gives is None or an object that is true
            if isinstance(y, C) and y.v is None and isinstance(x, Term):
                if x.op == "rxmatch":
                    return False
                if x.op == "call" and isinstance(x.args[0], Term) and x.args[0].op == "ext" and x.args[0].args[0] in ("regex.match", "regex.fullmatch", "regex.search", "re.match", "re.fullmatch", "re.search"):
                    return neg(self.as_bool(st, x))
        fa, fb = a, b
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, C) or isinstance(b, C):
                return False
            # x == [] : emptiness
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and not st.h(x).items and not (isinstance(y, Ref) and isinstance(st.h(y), HDict) != isinstance(st.h(x), HDict)):
                    t = self.as_bool(st, y)
                    return neg(t)
            fa, fb = self.freeze(st, a), self.freeze(st, b)
        if isinstance(fa, C) and isinstance(fb, C) and ident:
            return fa is fb
        if ident:
            if isinstance(fa, C):
                fa, fb = fb, fa
            if isinstance(fb, C) and isinstance(fb.v, bool) and isinstance(fa, Term) and fa.op not in ATOMS and fa.op != "not":
                if fa.op in ("int", "len", "str", "tostr", "tuple", "new", "obj", "list", "dict", "set", "float", "exc", "call_int"):
                    return False
                return T("is", fa, fb)
        if isinstance(fa, Term) and isinstance(fb, Term) and fa.op == fb.op == "tuple":
            if len(fa.args) != len(fb.args):
                return False
            rs = [self.eq_(st, x, y) for x, y in zip(fa.args, fb.args)]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif not ident and isinstance(fa, Term) and isinstance(fb, Term) and fa.op == fb.op and fa.op in ("list", "dict"):
            r = self.same_contents(st, fa, fb)
            if r is not None:
                return r
        return atom_eq(fa, fb)

    def same_contents(self, st, fa, fb):
        """Whether two lists or dicts that are known entry by entry are equal; None where it is not decided."""
        if fa.op == "list":
            if not all(isinstance(i, V) and not isinstance(i, (Gen, Splice)) for i in fa.args + fb.args):
                return None
            if len(fa.args) != len(fb.args):
                return False
            rs = [self.eq_(st, x, y) for x, y in zip(fa.args, fb.args)]
        else:
            if not all(isinstance(i, tuple) and isinstance(i[0], C) for i in fa.args + fb.args):
                return None
            da, db = [{i[0].v: i[1] for i in f.args} for f in (fa, fb)]
            if set(da) != set(db):
                return False
            rs = [self.eq_(st, da[k], db[k]) for k in da]
            if list(da) != list(db):
                rs.append(None)
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None

    def lt_(self, st, x, y):
        if isinstance(x, C) and isinstance(y, C):
            try:
                return x.v < y.v
            except TypeError:
                return T("lt", x, y)
        if isinstance(x, Term) and x.op == "len" and isinstance(x.args[0], Term) and x.args[0].op == "tuple":
            x = C(len(x.args[0].args))
        if isinstance(y, Term) and y.op == "len" and isinstance(y.args[0], Term) and y.args[0].op == "tuple":
            y = C(len(y.args[0].args))
        if isinstance(x, C) and isinstance(y, C):
            return self.lt_(st, x, y)
        # len(v) > 0, len(v) >= 1
        if isinstance(x, C) and isinstance(y, Term) and y.op == "len":
            if x.v == 0:
                return self.as_bool(st, y.args[0])
        if isinstance(y, C) and isinstance(x, Term) and x.op == "len":
            if y.v == 1:
                return neg(self.as_bool(st, x.args[0]))
            if y.v == 0:
                return False
        if isinstance(y, Ref):
            y = self.freeze(st, y)
        if isinstance(x, Ref):
            x = self.freeze(st, x)
        return T("lt", x, y)

    def in_(self, st, a, b):
        if isinstance(b, Term) and b.op in ("keys", "list_of", "tuple_of", "set_of", "sorted", "iter", "copy"):
            b = b.args[0]
        if isinstance(b, Term) and b.op == "frozenset":
            pass
        if isinstance(b, Term) and b.op == "values" and isinstance(b.args[0], Ref) and isinstance(st.h(b.args[0]), HDict):
            its = st.h(b.args[0]).items
            if all(isinstance(i, tuple) for i in its):
                b = T("tuple", *[i[1] for i in its])
        items = None
        if isinstance(b, Ref):
            h = st.h(b)
            if isinstance(h, HList):
                items = h.items
            else:
                items = tuple(i[0] if isinstance(i, tuple) else i for i in h.items)
        elif isinstance(b, Term) and b.op in ("tuple", "list", "set", "tuplegen"):
            items = b.args
        if items is not None:
            rest, consts, others = [], set(), []
            for i in items:
                if isinstance(i, Gen):
                    v = i.key if i.key is not None else i.value
                    e = atom_eq(v, a) if isinstance(v, V) else None
                    d = decide(st.facts, e) if not isinstance(e, bool) else e
                    if d is False:
                        continue
                    if d is True:
                        others.append(T("exists", i.it, i.facts) if i.facts else T("truthy", i.it))
                    else:
                        others.append(T("in", a, T("gens", i)))
                elif isinstance(i, Splice):
                    others.append(T("in", a, i.term))
                else:
                    e = self.eq_(st, i, a)
                    d = e if isinstance(e, bool) else decide(st.facts, e)
                    if d is True:
                        return True
                    if d is False:
                        continue
                    if isinstance(i, C) and not isinstance(a, C):
                        consts.add(i)
                    else:
                        others.append(e)
            if consts:
                if len(consts) == 1:
                    others.append(T("eq", self.freeze(st, a), next(iter(consts))))
                else:
                    others.append(T("inset", self.freeze(st, a), frozenset(consts)))
            if not others:
                return False
            if len(others) == 1:
                return others[0]
            return T("or", *others)
        if isinstance(b, C) and isinstance(a, C) and isinstance(b.v, str) and isinstance(a.v, str):
            return a.v in b.v
        if isinstance(a, C) and isinstance(a.v, str) and isinstance(b, Term) and b.op == "str":
            if any(isinstance(p, C) and a.v in p.v for p in b.args):
                return True
        return T("in", self.freeze(st, a), b)


_ok = {}


def _ordkey2(v):
    return _ok.setdefault(v, len(_ok))
