"""Models of built-in functions and methods."""

import ast
import builtins as _bi
import base64
import binascii
import math
import decimal
import re

from .interp import *
from .objects import PURE_METHODS, STR_METHODS, dedupe

PURE_EXT = {
    "len", "isinstance", "str", "repr", "hasattr", "getattr", "type", "bool", "id", "callable", "int", "float", "sorted", "max", "min", "sum", "abs", "range",
    "regex.compile", "re.compile", "regex.match", "re.match", "regex.sub", "re.sub", "regex.fullmatch", "re.fullmatch", "dir", "hash", "round", "ord", "chr",
    "decimal.Decimal", "base64.b64encode", "base64.b64decode", "str.join", "functools.reduce", "math.log", "uuid.uuid1", "uuid.uuid4", "json.dumps", "lxml.etree.QName",
    "dict.fromkeys", "vars", "object", "os.path.join", "os.path.exists", "os.path.abspath", "divmod", "pow", "bytes", "frozenset", "slice", "operator.attrgetter", "operator.itemgetter",
}

# functions of the standard library folded when every operand is a constant
FOLD = {"base64.b64encode": base64.b64encode, "base64.b64decode": base64.b64decode, "math.log10": math.log10, "math.pow": math.pow, "abs": abs, "round": round,
        "ord": ord, "chr": chr, "divmod": divmod, "pow": pow, "str": str, "bytes": bytes, "binascii.hexlify": binascii.hexlify}


def m_decimal(m):
    return m in ("quantize", "normalize", "to_integral_value", "is_nan", "is_finite", "is_signed", "copy_abs", "as_integer_ratio", "adjusted", "compare", "is_zero", "__str__")


class Builtins(object):
    def call_ext(self, st, fn, args, kw, node, fr):
        name = fn.args[0]
        m = getattr(self, "b_" + name.replace(".", "_"), None)
        if m is not None and not any(isinstance(a, (Splice, Gen)) for a in args):
            r = m(st, args, kw, node, fr)
            if r is not None:
                return r
        if name.endswith(".__new__") and args and isinstance(args[0], ClassVal):
            t = T("new0", args[0], C(name), tuple(self.freeze_entry(st, a, 0) if not isinstance(a, V) else self.freeze(st, a) for a in args[1:]))
            out = []
            if self.trydepth:
                s2 = st.clone()
                if assume(s2, T("raises", t), True):
                    out.append((s2, Raise(T("excof", t))))
                if not assume(st, T("raises", t), False):
                    return out
            return out + [(st, T("obj", C(st.fresh()), args[0], t))]
        r = self.fold_regex(name, args, kw, st)
        if r is not None:
            return [(st, r)]
        if name in FOLD:
            xs = [self.val(st, a) if hasattr(self, "val") and isinstance(a, V) else a for a in args]
            ks = [(k, self.val(st, a) if hasattr(self, "val") and isinstance(a, V) else a) for k, a in kw]
            if all(isinstance(a, C) for a in xs) and all(isinstance(a, C) for _, a in ks):
                try:
                    return [(st, C(FOLD[name](*[a.v for a in xs], **{k: a.v for k, a in ks})))]
                except Exception as e:
                    return [(st, self.exc(type(e).__name__))] if hasattr(self, "exc") else [(st, Raise(T("exc", T("exttype", type(e).__name__), ())))]
        o = getattr(_bi, name, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return [(st, T("exc", T("exttype", name), tuple(self.freeze(st, a) for a in args if isinstance(a, V))))]
        # unbound methods of built-in types: dict.get(d, k), str.join(s, it), super-like calls
        if "." in name:
            cls, _, meth = name.rpartition(".")
            if cls in ("str", "dict", "list", "set", "bytes", "int", "collections.OrderedDict", "object", "float", "tuple") and args and not isinstance(args[0], (Splice, Gen)) and not meth.startswith("__"):
                return self.call(st, T("method", args[0], C(meth)) if not isinstance(args[0], (FuncVal, ClassVal)) else T("attr", args[0], C(meth)), args[1:], kw, node, fr)
        pure = name in PURE_EXT or name.split(".")[0] in ("math", "operator", "itertools", "functools")
        return self.opaque_call(st, fn, args, kw, node, fr, pure=pure, raises=name not in ("len", "type", "id", "bool", "callable", "dir", "regex.compile", "re.compile"))

    # ------------------------------------------------------------ regular expressions on constants
    def fold_regex(self, name, args, kw, st=None):
        """regex/re functions whose operands are all constants are folded like any other constant expression."""
        mod, _, fn = name.rpartition(".")
        if mod not in ("regex", "re") or kw:
            return None
        if fn == "compile" and args and isinstance(args[0], C) and len(args) <= 2:
            fl = self.rx_flags(args[1]) if len(args) == 2 else ""
            return None if fl is None else T("rx", C(fl + args[0].v))
        if fn == "escape" and len(args) == 1 and isinstance(args[0], C):
            return C(re.escape(args[0].v))
        if fn in ("match", "search", "fullmatch", "sub", "split", "findall", "finditer"):
            n = 3 if fn == "sub" else 2
            fl = ""
            if len(args) == n + 1 and fn != "sub" and fn != "split":
                fl = self.rx_flags(args[n])
                if fl is None:
                    return None
                args = args[:n]
            if all(isinstance(a, C) and isinstance(a.v, str) for a in args):
                return self.fold_rx(fn, fl + args[0].v, [a.v for a in args[1:]], st)
        return None

    def rx_flags(self, v):
        if isinstance(v, C) and v.v == 0:
            return ""
        if isinstance(v, Term) and v.op == "ext":
            m, _, n = v.args[0].rpartition(".")
            x = {"DOTALL": "s", "S": "s", "IGNORECASE": "i", "I": "i", "MULTILINE": "m", "M": "m", "VERBOSE": "x", "X": "x", "ASCII": "a", "A": "a", "UNICODE": "u", "U": "u"}.get(n)
            if m in ("re", "regex") and x:
                return "(?%s)" % x
        return None

    def fold_rx(self, fn, pat, args, st=None):
        try:
            rx = re.compile(pat)
            r = getattr(rx, fn)(*args)
            if fn == "finditer":
                r = list(r)
        except Exception:
            return None
        if r is None or isinstance(r, str):
            return C(r)
        if fn in ("match", "search", "fullmatch"):
            return T("rxmatch", C(pat), C(fn), C(args[0]))
        if st is not None:
            if fn == "finditer":
                return st.alloc(HList("list", tuple(T("rxmatch", C(pat), C("finditer"), C(args[0]), C(i)) for i in range(len(r)))))
            if fn in ("findall", "split"):
                return st.alloc(HList("list", tuple(tup([C(y) for y in x]) if isinstance(x, tuple) else C(x) for x in r)))
        return None

    @staticmethod
    def rx_match(o):
        rx = re.compile(o.args[0].v)
        if o.args[1].v == "finditer":
            return list(rx.finditer(o.args[2].v))[o.args[3].v]
        return getattr(rx, o.args[1].v)(o.args[2].v)

    # ------------------------------------------------------------ introspection
    def b_isinstance(self, st, args, kw, node, fr):
        if len(args) == 2:
            return [(st, self.isinst(st, args[0], args[1]))]

    def b_issubclass(self, st, args, kw, node, fr):
        return [(st, T("issub", args[0], args[1]))]

    def b_callable(self, st, args, kw, node, fr):
        if isinstance(args[0], (FuncVal, Bound, ClassVal)):
            return [(st, TRUE)]
        h = self.hasattr_(st, args[0], C("__call__"))
        return [(st, cbool(h) if isinstance(h, bool) else h)]

    def b_hasattr(self, st, args, kw, node, fr):
        r = self.hasattr_(st, args[0], args[1])
        if not isinstance(r, bool):
            d = decide(st.facts, r)
            if d is not None:
                r = d
        return [(st, cbool(r) if isinstance(r, bool) else r)]

    def b_getattr(self, st, args, kw, node, fr):
        o, name = args[0], args[1]
        name = self.strval(name)
        if len(args) == 2:
            if self.trydepth:
                out = []
                for s, b in self.truth(st, self.hasattr_(st, o, name)):
                    if b:
                        out.extend(self.getattr_(s, o, name, node, fr))
                    else:
                        out.append((s, Raise(T("exc", T("exttype", "AttributeError"), (name,)))))
                return out
            return self.getattr_(st, o, name, node, fr)
        out = []
        for s, b in self.truth(st, self.hasattr_(st, o, name)):
            if b:
                out.extend(self.getattr_(s, o, name, node, fr))
            else:
                out.append((s, args[2]))
        return out

    def strval(self, v):
        return v

    def b_setattr(self, st, args, kw, node, fr):
        return [(s, r if isinstance(r, Raise) else NONE) for s, r in self.setattr_(st, args[0], args[1], args[2], node, fr)]

    def b_type(self, st, args, kw, node, fr):
        if len(args) == 1:
            return [(st, self.type_of(st, args[0]))]

    def b_id(self, st, args, kw, node, fr):
        return [(st, T("id", args[0]))]

    def b_len(self, st, args, kw, node, fr):
        v = args[0]
        if isinstance(v, C) and hasattr(v.v, "__len__"):
            return [(st, C(len(v.v)))]
        if isinstance(v, Term) and v.op == "tuple":
            return [(st, C(len(v.args)))]
        if isinstance(v, Ref):
            h = st.h(v)
            if h.known() and (isinstance(h, HDict) or h.kind == "list" or len(h.items) <= 1):
                return [(st, C(len(h.items)))]
            if len(h.items) == 1 and isinstance(h.items[0], Splice):
                return [(st, T("len", h.items[0].term))]
            if len(h.items) == 1 and isinstance(h.items[0], Gen) and not h.items[0].facts and isinstance(h, HList) and h.kind == "list":
                return [(st, T("len", h.items[0].it))]
            return [(st, T("len", self.freeze(st, v)))]
        if isinstance(v, Term) and v.op in ("list_of", "tuple_of", "keys", "values", "items", "sorted", "copy"):
            v = v.args[0]
            return self.b_len(st, (v,), kw, node, fr)
        return [(st, T("len", v))]

    # ------------------------------------------------------------ conversions
    def b_str(self, st, args, kw, node, fr):
        if not args:
            return [(st, C(""))]
        if len(args) == 1:
            v = args[0]
            cv = self.typeof(v)
            if cv is not None:
                f = self.class_lookup(st, cv, "__str__")
                if isinstance(f, FuncVal) and not any(x is f.node for x in self.stack):
                    return [(st, T("tostr", v))]
            return [(st, self.tostr(st, v))]

    def b_format(self, st, args, kw, node, fr):
        if len(args) == 1 or args[1] is C(""):
            return self.b_str(st, args[:1], (), node, fr)
        if isinstance(args[1], C) and isinstance(args[1].v, str):
            return [(st, self.format_spec(st, args[0], args[1].v))]
        return [(st, T("call", T("ext", "format"), args, kw))]

    def b_repr(self, st, args, kw, node, fr):
        return [(st, self.repr_(st, args[0]))]

    def b_bool(self, st, args, kw, node, fr):
        if not args:
            return [(st, FALSE)]
        v = self.as_bool(st, args[0])
        return [(st, cbool(v) if isinstance(v, bool) else v)]

    def b_int(self, st, args, kw, node, fr):
        if not args:
            return [(st, C(0))]
        if len(args) == 1 and not kw:
            v = args[0]
            if isinstance(v, C):
                try:
                    return [(st, C(int(v.v)))]
                except Exception:
                    return [(st, Raise(T("exc", T("exttype", "ValueError"), ())))]
            if isinstance(v, Term) and v.op in ("int", "len", "idx"):
                return [(st, v)]
            t = T("int", v)
            return self.maybe_raise(st, t, t)

    def maybe_raise(self, st, key, v):
        if not self.trydepth:
            return [(st, v)]
        a = T("raises", key)
        d = decide(st.facts, a)
        if d is False:
            return [(st, v)]
        if d is True:
            return [(st, Raise(T("excof", key)))]
        s2 = st.clone()
        assume(st, a, False)
        assume(s2, a, True)
        return [(st, v), (s2, Raise(T("excof", key)))]

    def b_float(self, st, args, kw, node, fr):
        if len(args) == 1:
            if isinstance(args[0], C) and isinstance(args[0].v, (int, float, str, decimal.Decimal)):
                try:
                    return [(st, C(float(args[0].v)))]
                except Exception:
                    pass
            t = T("float", self.freeze(st, args[0]))
            return self.maybe_raise(st, t, t)

    def b_list(self, st, args, kw, node, fr):
        if not args:
            return [(st, st.alloc(HList("list", ())))]
        v = args[0]
        if isinstance(v, Term) and v.op not in ("tuple", "list", "tuplegen", "concat", "set", "dict"):
            segs = self.segments(st, v)
            if all(s[0] == "item" for s in segs):
                return [(st, st.alloc(HList("list", tuple(s[1] for s in segs))))]
            base = v.args[0] if v.op in ("keys", "list_of") else v
            return [(st, st.alloc(HList("list", tuple(self.spread(st, base)))))]
        return [(st, st.alloc(HList("list", tuple(self.spread(st, v)))))]

    def b_tuple(self, st, args, kw, node, fr):
        if not args:
            return [(st, tup(()))]
        items = self.spread(st, args[0])
        if any(isinstance(i, (Gen, Splice)) for i in items):
            if len(items) == 1 and isinstance(items[0], Splice):
                return [(st, T("tuple_of", items[0].term))]
            return [(st, T("tuplegen", *items))]
        return [(st, tup(items))]

    def b_set(self, st, args, kw, node, fr):
        items = self.spread(st, args[0]) if args else ()
        return [(st, st.alloc(HList("set", dedupe(items))))]

    b_frozenset = b_set

    def b_collections_deque(self, st, args, kw, node, fr):
        items = self.spread(st, args[0]) if args else ()
        return [(st, st.alloc(HList("list", tuple(items))))]

    def b_dict(self, st, args, kw, node, fr):
        if len(args) > 1:
            return None
        h = self.dict_from(st, args[0] if args else None)
        for k, v in kw:
            h = HDict(h.items + (Splice(v),)) if k == "**" else self.dict_put(st, h, C(k), v)
        return [(st, st.alloc(h))]

    b_collections_OrderedDict = b_dict

    def b_collections_defaultdict(self, st, args, kw, node, fr):
        return None

    def b_copy_copy(self, st, args, kw, node, fr):
        return [(st, self.mkcopy(st, args[0]))]

    def b_copy_deepcopy(self, st, args, kw, node, fr):
        memo = {}

        def dc(v):
            if isinstance(v, Ref):
                if v in memo:
                    return memo[v]
                h = st.h(v)
                r = st.alloc(h)
                memo[v] = r
                items = []
                for i in h.items:
                    if isinstance(i, tuple):
                        items.append((i[0], dc(i[1])))
                    elif isinstance(i, V):
                        items.append(dc(i))
                    else:
                        items.append(i)
                st.heap[r.id] = HList(h.kind, tuple(items)) if isinstance(h, HList) else HDict(tuple(items))
                return r
            if isinstance(v, Term) and v.op == "tuple":
                return tup([dc(x) for x in v.args])
            if isinstance(v, Term) and v.op not in ("str", "tostr", "repr", "len", "idx", "new", "exttype", "ext"):
                return T("copy", v)
            return v

        return [(st, dc(args[0]))]

    # ------------------------------------------------------------ iteration helpers
    def b_iter(self, st, args, kw, node, fr):
        if len(args) == 1:
            v = args[0]
            return [(st, v if isinstance(v, Ref) else T("iter", v))]

    def b_enumerate(self, st, args, kw, node, fr):
        start = args[1] if len(args) > 1 else dict(kw).get("start", C(0))
        return [(st, T("enumerate", args[0], start))]

    def b_zip(self, st, args, kw, node, fr):
        return [(st, T("zip", *args))]

    def b_range(self, st, args, kw, node, fr):
        a = args
        if len(a) == 2 and a[0] is C(0):
            a = (a[1],)
        return [(st, T("range", *a))]

    def b_reversed(self, st, args, kw, node, fr):
        v = args[0]
        segs = self.segments(st, v)
        if all(s[0] == "item" for s in segs):
            return [(st, tup([s[1] for s in reversed(segs)]))]
        return [(st, T("reversed", self.freeze(st, v)))]

    def b_sorted(self, st, args, kw, node, fr):
        v = args[0]
        segs = self.segments(st, v)
        if all(s[0] == "item" for s in segs):
            r = self.ordered(st, [s[1] for s in segs], kw, node, fr)
            if r is not None:
                return [(st, st.alloc(HList("list", tuple(r))))]
        return [(st, T("sorted", self.freeze(st, v), *[(k, self.freeze(st, x)) for k, x in kw]))]

    def b_map(self, st, args, kw, node, fr):
        if len(args) != 2:
            return None
        acc = st.alloc(HList("list", ()))
        ceid = ("x", st.fresh())
        st.env[ceid] = {"$acc": acc}
        fn = args[0]

        def body(s, e):
            out = []
            for s2, v in self.call(s, fn, (e,), (), node, fr):
                if isinstance(v, Raise):
                    out.append((s2, v))
                else:
                    s2.heap[acc.id] = HList("list", s2.h(acc).items + (v,))
                    out.append((s2, None))
            return out

        out = []
        for s, sig, _ in self.run_loop(st, args[1], body, node, fr):
            s.env.pop(ceid, None)
            out.append((s, acc if sig is None else sig))
        return out

    def b_filter(self, st, args, kw, node, fr):
        acc = st.alloc(HList("list", ()))
        ceid = ("x", st.fresh())
        st.env[ceid] = {"$acc": acc}
        fn = args[0]

        def body(s, e):
            out = []
            rs = [(s, e)] if fn is NONE else self.call(s, fn, (e,), (), node, fr)
            for s2, v in rs:
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                for s3, b in self.truth(s2, v):
                    if b:
                        s3.heap[acc.id] = HList("list", s3.h(acc).items + (e,))
                    out.append((s3, None))
            return out

        out = []
        for s, sig, _ in self.run_loop(st, args[1], body, node, fr):
            s.env.pop(ceid, None)
            out.append((s, acc if sig is None else sig))
        return out

    def anyall(self, st, v, isany):
        """Fork on any(v) / all(v)."""
        items = self.spread(st, v)
        cur = [st]
        out = []
        for i in items:
            nx = []
            for s in cur:
                if isinstance(i, Gen):
                    b = self.as_bool(s, i.value)
                    if isinstance(b, bool):
                        if b != isany:
                            nx.append(s)
                            continue
                        at = T("exists", i.it, i.facts) if i.facts else T("truthy", i.it)
                    else:
                        a, pol = split_not(b)
                        at = T("exists", i.it, i.facts | {(a, pol == isany)})
                elif isinstance(i, Splice):
                    e = T("elem", i.term, C(0))
                    at = T("exists", i.term, frozenset({(T("truthy", e), isany)}))
                else:
                    b = self.as_bool(s, i)
                    at = b if isany else neg(b)
                for s2, r in self.truth(s, at):
                    if r:
                        out.append((s2, cbool(isany)))
                    else:
                        nx.append(s2)
            cur = nx
        return out + [(s, cbool(not isany)) for s in cur]

    def b_any(self, st, args, kw, node, fr):
        return self.anyall(st, args[0], True)

    def b_all(self, st, args, kw, node, fr):
        return self.anyall(st, args[0], False)

    def b_next(self, st, args, kw, node, fr):
        v = args[0]
        items = self.spread(st, v)
        out = []
        cur = [st]
        for i in items:
            nx = []
            for s in cur:
                if isinstance(i, Gen):
                    at = T("exists", i.it, i.facts) if i.facts else T("truthy", i.it)
                    val = i.value
                elif isinstance(i, Splice):
                    at = T("truthy", i.term)
                    val = T("elem", i.term, C(0))
                else:
                    at, val = True, i
                for s2, r in self.truth(s, at):
                    if r:
                        out.append((s2, val))
                    else:
                        nx.append(s2)
            cur = nx
        for s in cur:
            out.append((s, args[1] if len(args) > 1 else Raise(T("exc", T("exttype", "StopIteration"), ()))))
        return out

    def ordered(self, st, items, kw, node, fr):
        """The items in sorted order if the order is known."""
        kw = dict(kw)
        key = kw.get("key", NONE)
        rev = kw.get("reverse", FALSE)
        if not isinstance(rev, C) or any(isinstance(i, (Splice, Gen)) for i in items):
            return None
        if len(items) < 2:
            return list(items)

        def plain(k, d=0):
            k = self.val(st, k) if hasattr(self, "val") else k
            if isinstance(k, C):
                return k.v
            if isinstance(k, Term) and k.op == "tuple" and d < 4:
                return tuple(plain(x, d + 1) for x in k.args)
            raise TypeError

        keyed = []
        try:
            for n, i in enumerate(items):
                k = i
                if key is not NONE:
                    outs = self.call(st.clone(), key, (i,), (), node, fr)
                    if len(outs) != 1 or isinstance(outs[0][1], Raise):
                        return None
                    k = outs[0][1]
                keyed.append((plain(k), n, i))
            keyed.sort(key=lambda t: t[0], reverse=bool(rev.v))
        except TypeError:
            return None
        return [t[2] for t in keyed]

    def b_max(self, st, args, kw, node, fr):
        return self.minmax(st, args, kw, node, fr, True)

    def b_min(self, st, args, kw, node, fr):
        return self.minmax(st, args, kw, node, fr, False)

    def minmax(self, st, args, kw, node, fr, top):
        items = self.spread(st, args[0]) if len(args) == 1 else list(args)
        dflt = dict(kw).get("default")
        kw = tuple((k, v) for k, v in kw if k != "default")
        if any(isinstance(i, (Splice, Gen)) for i in items):
            return None
        if not items:
            if dflt is not None:
                return [(st, dflt)]
            if len(args) == 1:
                return [(st, Raise(T("exc", T("exttype", "ValueError"), ())))]
            return None
        r = self.ordered(st, items, kw + ((("reverse", TRUE),) if top else ()), node, fr)
        return [(st, r[0])] if r is not None else None

    def b_print(self, st, args, kw, node, fr):
        return [(st, NONE)]

    b_pprint_pprint = b_print

    def b_functools_partial(self, st, args, kw, node, fr):
        return [(st, T("partial", args[0], tuple(args[1:]), tuple(kw)))]

    def b_sys_exit(self, st, args, kw, node, fr):
        return [(st, Raise(T("exc", T("exttype", "SystemExit"), ())))]

    def b_exit(self, st, args, kw, node, fr):
        return [(st, Raise(T("exc", T("exttype", "SystemExit"), ())))]

    def b_builtins_property(self, st, args, kw, node, fr):
        return [(st, T("property", *(tuple(args) + (NONE, NONE, NONE))[:3]))]

    def b_property(self, st, args, kw, node, fr):
        d = dict(kw)
        a = list(args) + [NONE] * (2 - len(args))
        if "fget" in d:
            a[0] = d["fget"]
        if "fset" in d:
            a[1] = d["fset"]
        return [(st, T("property", a[0], a[1]))]

    # ------------------------------------------------------------ methods of unknown objects
    def call_attr(self, st, fn, args, kw, node, fr):
        o, name = fn.args
        if isinstance(o, C) and isinstance(o.v, decimal.Decimal) and isinstance(name, C) and not kw and all(isinstance(a, C) for a in args) and m_decimal(name.v):
            try:
                return [(st, C(getattr(o.v, name.v)(*[a.v for a in args])))]
            except decimal.DecimalException as e:
                return [(st, Raise(T("exc", T("ext", "decimal." + type(e).__name__), ())))]
            except Exception as e:
                return [(st, Raise(T("exc", T("exttype", type(e).__name__), ())))]
        if isinstance(name, C) and isinstance(o, Term):
            m = name.v
            if o.op == "rx":
                if all(isinstance(a, C) and isinstance(a.v, str) for a in args) and not kw:
                    r = self.fold_rx(m, o.args[0].v, [a.v for a in args], st)
                    if r is not None:
                        return [(st, r)]
                return self.opaque_call(st, T("ext", "regex." + m), (o.args[0],) + tuple(args), kw, node, fr, pure=True, raises=False)
            if o.op == "rxmatch" and not kw and all(isinstance(a, C) for a in args):
                mo = self.rx_match(o)
                try:
                    r = getattr(mo, m)(*[a.v for a in args])
                except Exception:
                    r = 0.5
                if r is None or isinstance(r, (str, int)):
                    return [(st, C(r))]
                if isinstance(r, tuple):
                    return [(st, tup(C(x) for x in r))]
                if isinstance(r, dict):
                    return [(st, st.alloc(HDict(tuple((C(k), C(x)) for k, x in r.items()))))]
            if not args and not kw and m in ("keys", "values", "items", "iteritems", "itervalues") and o.op != "super":
                op = {"iteritems": "items", "itervalues": "values"}.get(m, m)
                cv = self.typeof(o)
                if cv is None:
                    return [(st, T(op, o))]
            if m == "copy" and not args and o.op != "super":
                return [(st, T("copy", o))]
            if m == "get" and o.op == "kwargs" and args:
                return [(st, T("opt", o, args[0], args[1] if len(args) > 1 else NONE))]
            if m in PURE_METHODS:
                if m in ("startswith", "endswith", "isidentifier", "isdigit"):
                    return [(st, self.P(T("call", fn, tuple(args), tuple(kw))))]
                if m == "format" and False:
                    pass
                return self.opaque_call(st, fn, args, kw, node, fr, pure=True, raises=m in ("index", "quantize", "encode", "decode"))
        return self.opaque_call(st, fn, args, kw, node, fr)

    # ------------------------------------------------------------ methods of known containers/strings
    def call_method(self, st, fn, args, kw, node, fr):
        o, name = fn.args
        m = name.v
        if isinstance(o, C) and isinstance(o.v, decimal.Decimal):
            return self.call_attr(st, fn, args, kw, node, fr)
        if any(isinstance(a, (Splice, Gen)) for a in args):
            return self.opaque_call(st, fn, args, kw, node, fr)
        if isinstance(o, Ref):
            h = st.h(o)
            if not kw and m in ("__getitem__", "__setitem__", "__delitem__") and len(args) == (2 if m == "__setitem__" else 1):
                f = {"__getitem__": self.getitem, "__setitem__": self.setitem, "__delitem__": self.delitem}[m]
                r = f(st, o, *args, node, fr)
                return [(s, NONE if x is None else x) for s, x in r] if r is not None else [(st, NONE)]
            if m == "__contains__" and len(args) == 1 and not kw:
                r = self.in_(st, args[0], o)
                return [(st, cbool(r) if isinstance(r, bool) else r)]
            if m == "__len__" and not args:
                return self.b_len(st, (o,), (), node, fr)
            if m == "popitem" and isinstance(h, HDict) and h.items and all(isinstance(i, tuple) for i in h.items):
                last = dict(kw).get("last", args[0] if args else TRUE)
                if isinstance(last, C):
                    i = h.items[-1 if last.v else 0]
                    st.heap[o.id] = HDict(h.items[:-1] if last.v else h.items[1:])
                    return [(st, tup(i))]
            if isinstance(h, HDict):
                r = self.dict_method(st, o, h, m, args, kw, node, fr)
            else:
                r = self.list_method(st, o, h, m, args, kw, node, fr)
            if r is not None:
                return r
            return self.opaque_call(st, fn, args, kw, node, fr)
        if isinstance(o, Term) and o.op == "dict" and m in ("keys", "values", "items", "get"):
            r = st.alloc(HDict(o.args))
            return self.call_method(st, T("method", r, name), args, kw, node, fr)
        r = self.str_method(st, o, m, args, kw, node, fr)
        if r is not None:
            return r
        return self.opaque_call(st, T("attr", o, name), args, kw, node, fr, pure=True, raises=m in ("index", "encode", "decode"))

    def dict_method(self, st, o, h, m, args, kw, node, fr):
        kd = dict(kw)
        if m in ("get", "pop", "setdefault"):
            k = args[0]
            d = args[1] if len(args) > 1 else kd.get("default", NONE if m != "pop" else None)
            r = self.dict_find(st, h, k)
            if r[0] == "hit":
                if m == "pop":
                    self.delitem(st, o, k, node, fr)
                return [(st, r[1])]
            if r[0] == "miss":
                if m == "setdefault":
                    st.heap[o.id] = self.dict_put(st, h, k, d)
                if d is None:
                    return [(st, Raise(T("exc", T("exttype", "KeyError"), (k,))))]
                return [(st, d)]
            sp = [i for i in h.items if isinstance(i, Splice)]
            if len(sp) == 1 and isinstance(sp[0].term, Term) and sp[0].term.op == "kwargs" and d is not None and m in ("get", "pop"):
                if all(isinstance(i, Splice) or (isinstance(i, tuple) and self.eq_(st, i[0], k) is False) for i in h.items):
                    return [(st, self.P(T("opt", sp[0].term, k, d)))]
            v = self.item(st, o, k)
            present = self.in_(st, k, o)
            out = []
            if d is None and not self.trydepth:
                return [(st, v)]
            for s, b in self.truth(st, present):
                if b:
                    out.append((s, v))
                elif d is None:
                    out.append((s, Raise(T("exc", T("exttype", "KeyError"), (k,)))))
                else:
                    if m == "setdefault":
                        s.heap[o.id] = self.dict_put(s, s.h(o), k, d)
                    out.append((s, d))
            return out
        if m in ("keys", "values", "items"):
            return [(st, T(m, o))]
        if m == "copy":
            return [(st, st.alloc(h))]
        if m == "update":
            if args:
                h = self.dict_merge(st, h, args[0]) if not (isinstance(args[0], Ref) and isinstance(st.h(args[0]), HList)) else self.dict_merge(st, h, st.alloc(self.dict_from(st, args[0])))
            for k, v in kw:
                h = HDict(h.items + (Splice(v),)) if k == "**" else self.dict_put(st, h, C(k), v)
            st.heap[o.id] = h
            return [(st, NONE)]
        if m == "clear":
            st.heap[o.id] = HDict(())
            return [(st, NONE)]
        if m in ("move_to_end",):
            r = self.dict_find(st, h, args[0])
            if r[0] == "hit" and all(isinstance(i, tuple) for i in h.items):
                hit = [i for i in h.items if self.eq_(st, i[0], args[0]) is True]
                last = dict(kw).get("last", args[1] if len(args) > 1 else TRUE)
                if len(hit) == 1 and isinstance(last, C):
                    rest = tuple(i for i in h.items if i is not hit[0])
                    st.heap[o.id] = HDict(rest + (hit[0],) if last.v else (hit[0],) + rest)
            return [(st, NONE)]
        return None

    def list_method(self, st, o, h, m, args, kw, node, fr):
        put = lambda items: st.heap.__setitem__(o.id, HList(h.kind, tuple(items)))
        if m in ("append", "add"):
            if m == "add" and args[0] in h.items:
                return [(st, NONE)]
            put(h.items + (args[0],))
            return [(st, NONE)]
        if m == "appendleft":
            put((args[0],) + h.items)
            return [(st, NONE)]
        if m in ("extend", "update"):
            for a in args:
                self.list_extend(st, o, a)
            return [(st, NONE)]
        if m == "insert":
            i = args[0]
            if isinstance(i, C) and i.v == 0:
                put((args[1],) + h.items)
            elif h.known() and isinstance(i, C) and isinstance(i.v, int):
                it = list(h.items)
                it.insert(i.v, args[1])
                put(it)
            else:
                put(h.items + (Splice(T("inserted", *args)),))
            return [(st, NONE)]
        if m in ("pop", "popleft"):
            i = args[0] if args else C(0 if m == "popleft" else -1)
            if not h.items:
                return [(st, Raise(T("exc", T("exttype", "IndexError"), ())))]
            if h.kind == "list" and isinstance(i, C) and i.v in (0, -1) and not isinstance(h.items[i.v], (Gen, Splice)):
                v = h.items[i.v]
                put(h.items[1:] if i.v == 0 else h.items[:-1])
                return [(st, v)]
            fz = self.freeze(st, o)
            v = T("popped", fz, i)
            put((Splice(T("rest", fz, i)),))
            return [(st, v)]
        if m in ("remove", "discard"):
            if args[0] in h.items and h.known():
                it = list(h.items)
                it.remove(args[0])
                put(it)
            elif h.known() and not h.items:
                if m == "remove":
                    return [(st, Raise(T("exc", T("exttype", "ValueError"), ())))]
            else:
                put((Splice(T("without", self.freeze(st, o), args[0])),))
            return [(st, NONE)]
        if m == "clear":
            put(())
            return [(st, NONE)]
        if m == "copy":
            return [(st, st.alloc(h))]
        if m == "reverse":
            if h.known():
                put(reversed(h.items))
            else:
                put((Splice(T("reversed", self.freeze(st, o))),))
            return [(st, NONE)]
        if m == "sort":
            r = self.ordered(st, list(h.items), kw, node, fr) if h.known() else None
            if r is not None:
                put(tuple(r))
                return [(st, NONE)]
            put((Splice(T("sorted", self.freeze(st, o), *[(k, self.freeze(st, x)) for k, x in kw])),))
            return [(st, NONE)]
        if h.kind == "set" and args and not kw and m in ("difference", "intersection", "symmetric_difference", "issubset", "issuperset", "isdisjoint") and h.known() and all(isinstance(i, C) for i in h.items):
            others = [self.spread(st, a) for a in args]
            if all(isinstance(i, C) for o2 in others for i in o2):
                mine = {i.v for i in h.items}
                theirs = [{i.v for i in o2} for o2 in others]
                if m.startswith("is"):
                    return [(st, C(getattr(mine, m)(*theirs)))]
                r = getattr(mine, m)(*theirs)
                return [(st, st.alloc(HList("set", dedupe(tuple(i for i in h.items if i.v in r) + tuple(i for o2 in others for i in o2 if i.v in r)))))]
        if m in ("union", "difference", "intersection") and h.kind == "set":
            if m == "union":
                items = h.items
                for a in args:
                    items = items + tuple(self.spread(st, a))
                return [(st, st.alloc(HList("set", dedupe(items))))]
            return [(st, T(m, self.freeze(st, o), *[self.freeze(st, a) for a in args]))]
        if m == "index" or m == "count":
            return self.opaque_call(st, T("attr", self.freeze(st, o), C(m)), args, kw, node, fr, pure=True)
        return None

    def str_method(self, st, o, m, args, kw, node, fr):
        if m == "format" and is_str(o):
            return [(st, self.str_format(st, o, args, kw))]
        if m == "join" and args:
            return [(st, self.str_join(st, o, args[0]))]
        if isinstance(o, C) and isinstance(o.v, (str, bytes)) and all(isinstance(a, C) for a in args) and not kw and hasattr(o.v, m):
            try:
                r = getattr(o.v, m)(*[a.v for a in args])
            except Exception:
                return [(st, Raise(T("exc", T("exttype", "ValueError"), ())))]
            if isinstance(r, list):
                return [(st, st.alloc(HList("list", tuple(C(x) for x in r))))]
            if isinstance(r, tuple):
                return [(st, tup([C(x) for x in r]))]
            return [(st, C(r))]
        if is_str(o) and m in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], C) and isinstance(args[0].v, str):
            p = o.args[0] if m == "startswith" else o.args[-1]
            if isinstance(p, C) and len(p.v) >= len(args[0].v):
                return [(st, cbool(getattr(p.v, m)(args[0].v)))]
        return None

    def str_join(self, st, sep, it):
        items = self.spread(st, it)
        if not any(isinstance(i, (Gen, Splice)) for i in items):
            parts = []
            for n, i in enumerate(items):
                if n:
                    parts.append(sep)
                parts.append(self.fmt(st, i))
            return mkstr(parts)
        return T("join", sep, *[self.freeze_entry(st, i, 0) for i in items])

    def str_format(self, st, o, args, kw):
        import string

        kd = dict(kw)
        parts = []
        n = 0
        for p in str_parts(o):
            if not isinstance(p, C):
                parts.append(p)
                continue
            try:
                pieces = list(string.Formatter().parse(p.v))
            except ValueError:
                return T("format", o, *args)
            for lit, field, spec, conv in pieces:
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[n] if n < len(args) else T("missing", C(n))
                    n += 1
                elif field.isdigit():
                    v = args[int(field)] if int(field) < len(args) else T("missing", C(field))
                elif field in kd:
                    v = kd[field]
                else:
                    v = T("fmtfield", C(field), *args)
                if conv == "r":
                    v = self.repr_(st, v)
                if spec:
                    v = self.format_spec(st, v, spec)
                parts.append(self.fmt(st, v))
        return mkstr(parts)

    def format_spec(self, st, v, spec):
        if isinstance(v, C):
            try:
                return C(format(v.v, spec))
            except (TypeError, ValueError):
                pass
        return T("format", v, C(spec))
