"""Whole-object analysis: instances of classes that extend built-in types, special-method dispatch and MRO lookup."""

import builtins as _bi
import decimal
import os
import re

from .engine import *
from .interp import *
from .objects import dedupe

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", "containers.py")
VALUE = C("$value")
IMM = {"int", "str", "float", "bytes", "decimal.Decimal", "bool", "tuple", "frozenset"}
MUT = {"set", "list", "dict", "collections.OrderedDict"}


def builtin_type(name):
    if name == "decimal.Decimal":
        return decimal.Decimal
    if name == "collections.OrderedDict":
        return dict
    o = getattr(_bi, name, None)
    return o if isinstance(o, type) else None


ETREE = os.path.join(os.path.dirname(STUB), "etree.py")
OBJECTIFY = os.path.join(os.path.dirname(STUB), "objectify.py")
FILES = os.path.join(os.path.dirname(STUB), "files.py")
JSONSTUB = os.path.join(os.path.dirname(STUB), "jsonstub.py")
# what elements of the real lxml have; what the model lacks of it is beyond the analysis rather than an error of the code
LXML = set("""addnext addprevious append attrib base clear cssselect extend find findall findtext get getchildren getiterator getnext getparent
getprevious getroottree index insert items iter iterancestors iterchildren iterdescendants iterfind itersiblings itertext keys makeelement nsmap prefix
remove replace set sourceline tag tail text values xpath addattr countchildren descendantpaths pyval write getroot getpath parse xslt relaxng docinfo""".split())
XP_STEP = re.compile(r"(\.\.|\.|\*|[\w\-.]+)((?:\[[^\[\]'\"]*(?:'[^']*'|\"[^\"]*\"|[^\[\]'\"])*\])*)$")
XP_TEST = re.compile(r"\s*(@?)([\w\-.]+)\s*(?:=\s*(?:'([^']*)'|\"([^\"]*)\")\s*|(?=\]|$|and\s))")


def xpath_parse(x):
    """(absolute, [(tag, [position or [(of an attribute, name, value or None)]])]) of the XPath expressions the model knows; None for a malformed one."""
    parts, buf, q = [], "", None
    for c in x:
        if q:
            q = None if c == q else q
        elif c in "'\"":
            q = c
        if c == "/" and not q:
            parts.append(buf)
            buf = ""
        else:
            buf += c
    parts.append(buf)
    if q:
        return None
    absolute = x.startswith("/")
    if absolute:
        parts = parts[1:]
    out = []
    for p in parts:
        if p == "" and len(parts) == 1 and absolute:
            continue
        m = XP_STEP.match(p.strip())
        if not m:
            if p.count("[") != p.count("]") or p == "" or re.search(r"\s[^'\"\[\]@=]*$", p) and "[" not in p:
                return None
            raise AnalysisLimit("xpath " + x)
        tests = []
        for pred in re.findall(r"\[((?:'[^']*'|\"[^\"]*\"|[^\[\]])*)\]", m.group(2)):
            if re.match(r"\s*\d+\s*$", pred):
                tests.append(int(pred))
                continue
            i, group = 0, []
            while True:
                t = XP_TEST.match(pred, i)
                if not t or re.match(r"\d", t.group(2)):
                    if re.match(r"\s*(\d+|\w[\w:-]*\s*=.*|[\w-]+\(.*)$", pred[i:]):
                        raise AnalysisLimit("xpath " + x)
                    return None
                group.append((t.group(1) == "@", t.group(2), t.group(3) if t.group(3) is not None else t.group(4)))
                i = t.end()
                if i == len(pred):
                    break
                if not re.match(r"and[\s@]", pred[i:]):
                    if pred.startswith("or ", i):
                        raise AnalysisLimit("xpath " + x)
                    return None
                i += 3
            tests.append(group)
        out.append((m.group(1), tests))
    return absolute, out


def term_of(x):
    return tup([term_of(i) for i in x]) if isinstance(x, (tuple, list)) else C(x)


def xpath_steps(it, st, fn, args, kw, site):
    a = args[0]
    if not isinstance(a, C) or not isinstance(a.v, str):
        raise AnalysisLimit("xpath expression " + pp(a)[:80])
    r = xpath_parse(a.v)
    if r is None:
        return [(st, Raise(T("exc", T("ext", "lxml.etree.XPathEvalError"), ())))]
    return [(st, term_of(r))]


class Whole(Interp):
    """Interp in which objects built by the analysed code are followed completely."""

    MAXDEPTH = 150
    strict = True

    def __init__(self, root="/repo"):
        Interp.__init__(self, root)
        self.exact_types = {}
        self.default_recurse = 24
        self.closed_mods |= {"pyangbind.lib.yangtypes", "pyangbind.lib.base", "pyangbind.lib.xpathhelper", "pyangbind.lib.serialise"}
        if "containers" not in self.modules:
            self.load_source("containers", open(STUB).read(), STUB)
        # every call gives another value, which is all that is known about it
        for u in ("uuid.uuid1", "uuid.uuid4"):
            self.hooks[u] = lambda i, s, f, a, k, site: [(s, C("uuid-%d" % s.fresh()))]
        e = self.base.env["m:containers"]
        self.extclass = {"collections.abc.MutableSequence": e["MutableSequence"], "collections.MutableSequence": e["MutableSequence"], "typing.MutableSequence": e["MutableSequence"]}
        if "etree_stub" not in self.modules:
            self.load_source("etree_stub", open(ETREE).read(), ETREE)
        e = self.base.env["m:etree_stub"]
        for n in ("Element", "SubElement"):
            self.extclass["lxml.etree." + n] = e[n]
        self.extclass["lxml.etree._Element"] = e["Element"]
        if "json_stub" not in self.modules:
            self.load_source("json_stub", open(JSONSTUB).read(), JSONSTUB)
        e = self.base.env["m:json_stub"]
        for n in ("JSONEncoder", "dumps", "loads", "dump", "load"):
            self.extclass["json." + n] = e[n]
        if "files_stub" not in self.modules:
            self.load_source("files_stub", open(FILES).read(), FILES)
        e = self.base.env["m:files_stub"]
        for n in ("io.open", "codecs.open", "io.TextIOWrapper"):
            self.extclass[n] = e["File"]
        if "objectify_stub" not in self.modules:
            self.load_source("objectify_stub", open(OBJECTIFY).read(), OBJECTIFY)
        e = self.base.env["m:objectify_stub"]
        for n in ("ElementMaker", "ObjectifiedElement", "makeparser", "fromstring"):
            self.extclass["lxml.objectify." + n] = e[n]
        for n in ("QName", "tostring"):
            self.extclass["lxml.etree." + n] = e[n]
        self.hooks["etree_stub:_steps"] = xpath_steps
        self._pure = 0

    # ------------------------------------------------------------ helpers
    def obj_class(self, v):
        if isinstance(v, Term) and v.op == "obj" and isinstance(v.args[1], ClassVal):
            return v.args[1]
        return None

    def val(self, st, v):
        """The built-in value an object wraps (the object itself if none)."""
        if isinstance(v, Term) and v.op == "obj":
            return st.attrs.get((v, VALUE), v)
        return v

    def bases_of(self, cv):
        """Names of the non-repository classes of the MRO, most derived first."""
        return [c.args[0] for c in self.mro(cv) if isinstance(c, Term) and c.op in ("exttype", "ext")]

    def base_name(self, cv):
        bs = self.bases_of(cv)
        bs = [b for b in bs if b != "object"]
        return bs[0] if bs else "object"

    def known_class(self, cv):
        return all(b == "object" or b in IMM or b in MUT for b in self.bases_of(cv)) and all(isinstance(c, ClassVal) or c.op in ("exttype", "ext") for c in self.mro(cv))

    def exact(self, v):
        """Name of the built-in type of a symbolic datum, if given."""
        return self.exact_types.get(v) if isinstance(v, Term) else None

    def special(self, st, v, name):
        """Repository-defined special method of an object."""
        cv = self.obj_class(v)
        if cv is None:
            return None
        f = self.class_lookup(st, cv, name)
        return f if isinstance(f, FuncVal) else None

    def pure_run(self, st, f, args):
        """Result of a call whose effects on the state do not matter, if it is the same on every path."""
        if self._pure > 12 or sum(1 for x in self.stack if x is f.node) > 4:
            return None
        self._pure += 1
        td, self.trydepth = self.trydepth, 0
        try:
            outs = self.call_func(st.clone(), f, args, (), None, Frame(("m:" + f.module,), f.module))
        finally:
            self._pure -= 1
            self.trydepth = td
        vals = []
        for s, v in outs:
            if isinstance(v, Raise):
                return None
            if isinstance(v, Ref) and v.id not in st.heap:
                v = self.freeze(s, v)
            if v not in vals:
                vals.append(v)
        if len(vals) == 1:
            return vals[0]
        if len(vals) == 2 and set(vals) == {TRUE, FALSE}:
            # a two-way decision on one atom is that atom
            ats = set()
            for s, v in outs:
                d = [(a, b) for a, b in s.facts.items() if st.facts.get(a) is not b]
                if len(d) != 1:
                    return None
                ats.add((d[0][0], d[0][1] == (v is TRUE)))
            if len(ats) == 1:
                a, pol = ats.pop()
                return a if pol else neg(a)
        return None

    # ------------------------------------------------------------ calls
    def call_func(self, st, f, args, kw, node, fr, bound=None):
        if f.name not in self.recurse and f.qual not in self.recurse:
            self.recurse[f.qual] = self.default_recurse
        return Interp.call_func(self, st, f, args, kw, node, fr, bound)

    def instantiate(self, st, cv, args, kw, node, fr):
        if self.hooks.get(cv.module + ":" + cv.qual) is None and not self.is_exc_class(cv) and self.known_class(cv):
            return self.construct(st, cv, args, kw, node, fr)
        return Interp.instantiate(self, st, cv, args, kw, node, fr)

    def construct(self, st, cv, args, kw, node, fr):
        newf = self.class_lookup(st, cv, "__new__")
        if isinstance(newf, FuncVal):
            outs = self.call_func(st, newf, (cv,) + tuple(args), kw, node, fr)
        else:
            outs = self.base_new(st, self.base_name(cv), cv, args, kw, node, fr)
        res = []
        for s, o in outs:
            if isinstance(o, Raise) or self.typeof(o) is not cv:
                res.append((s, o))
                continue
            init = self.class_lookup(s, cv, "__init__")
            if isinstance(init, FuncVal):
                for s2, r in self.call_func(s, init, (o,) + tuple(args), kw, node, fr):
                    res.append((s2, r if isinstance(r, Raise) else o))
            else:
                for s2, r in self.base_method(s, self.base_name(cv), o, "__init__", args, kw, node, fr):
                    res.append((s2, r if isinstance(r, Raise) else o))
        return self.merge(res)

    def exc(self, name, *args):
        return Raise(T("exc", T("exttype", name), tuple(args)))

    def base_new(self, st, base, cv, args, kw, node, fr):
        """<built-in>.__new__(cv, *args)"""
        if base in MUT:
            o = T("obj", C(st.fresh()), cv)
            st.attrs[(o, VALUE)] = st.alloc(HList(base, ()) if base in ("set", "list") else HDict(()))
            return [(st, o)]
        if base == "object":
            if (args or kw) and isinstance(self.class_lookup(st, cv, "__new__"), FuncVal):
                return [(st, self.exc("TypeError", C("object.__new__() takes exactly one argument")))]
            return [(st, T("obj", C(st.fresh()), cv))]
        if kw or any(isinstance(a, (Splice, Gen)) for a in args) or len(args) > (2 if base in ("int", "str", "bytes") else 1):
            if kw and not args:
                return [(st, self.exc("TypeError", C("unexpected keyword argument")))]
            v = [(st, self.P(T("call", T("exttype", base), tuple(args), tuple(kw))))]
        elif kw:
            return [(st, self.exc("TypeError", C("unexpected keyword argument")))]
        else:
            v = self.convert(st, base, args, node, fr)
        out = []
        for s, x in v:
            if isinstance(x, Raise):
                out.append((s, x))
                continue
            o = T("obj", C(s.fresh()), cv)
            s.attrs[(o, VALUE)] = x
            out.append((s, o))
        return out

    def convert(self, st, base, args, node, fr):
        """<built-in>(arg) for an immutable built-in -> the plain value."""
        if base == "int":
            return self.b_int(st, args, (), node, fr)
        if base == "str":
            return self.b_str(st, args, (), node, fr)
        if base == "float":
            if not args:
                return [(st, C(0.0))]
            return self.b_float(st, (self.val(st, args[0]),), (), node, fr)
        if base == "bytes":
            if not args:
                return [(st, C(b""))]
            a = self.val(st, args[0])
            if isinstance(a, C):
                try:
                    return [(st, C(bytes(a.v)))]
                except Exception as e:
                    return [(st, self.exc(type(e).__name__))]
            return [(st, a if self.exact(a) == "bytes" or (isinstance(a, Term) and a.op == "call" and isinstance(a.args[0], Term) and a.args[0].args[:1] == ("base64.b64decode",)) else T("bytes", a))]
        if base == "decimal.Decimal":
            if not args:
                return [(st, C(decimal.Decimal(0)))]
            a = self.val(st, args[0])
            if isinstance(a, C):
                try:
                    return [(st, C(decimal.Decimal(a.v)))]
                except decimal.InvalidOperation:
                    return [(st, Raise(T("exc", T("ext", "decimal.InvalidOperation"), ())))]
                except Exception as e:
                    return [(st, self.exc(type(e).__name__))]
            if isinstance(a, Term) and a.op == "decimal":
                return [(st, a)]
            t = T("decimal", a)
            return self.maybe_raise(st, t, t)
        if base == "bool":
            return [(st, self.pbool(st, args[0]) if args else FALSE)]
        if base == "tuple":
            r = self.b_tuple(st, args, (), node, fr)
            if r is not None:
                return r
        return [(st, T("conv", C(base), *args))]

    def pbool(self, st, v):
        b = self.as_bool(st, v)
        return cbool(b) if isinstance(b, bool) else b

    def base_method(self, st, base, o, name, args, kw, node, fr):
        """Method `name` of built-in `base` applied to object o."""
        cv = self.obj_class(o)
        v = self.val(st, o)
        if name == "__init__":
            if base in ("set", "list") and args and isinstance(v, Ref):
                st.heap[v.id] = HList(base, tuple(self.spread(st, args[0])) if base == "list" else dedupe(self.spread(st, args[0])))
                return [(st, NONE)]
            if base in ("dict", "collections.OrderedDict") and isinstance(v, Ref) and (args or kw):
                h = self.dict_from(st, args[0] if args else None)
                for k, x in kw:
                    h = self.dict_put(st, h, C(k), x)
                st.heap[v.id] = h
                return [(st, NONE)]
            if base not in MUT and (args or kw) and cv is not None and isinstance(self.class_lookup(st, cv, "__init__"), FuncVal):
                return [(st, self.exc("TypeError", C("object.__init__() takes exactly one argument")))]
            return [(st, NONE)]
        if name == "__str__":
            if base == "str" or base == "decimal.Decimal":
                return [(st, self.tostr(st, v))]
            f = self.special(st, o, "__repr__")
            if f is not None:
                return self.call_func(st, f, (o,), (), node, fr)
            return [(st, self.base_repr(st, base, o, v))]
        if name == "__repr__":
            return [(st, self.base_repr(st, base, o, v))]
        if name == "__eq__" and args:
            return [(st, self.eq_value(st, v, self.val(st, args[0])))]
        if name == "__ne__" and args:
            r = self.compare(st, "NotEq", v, self.val(st, args[0]))
            return [(st, cbool(r) if isinstance(r, bool) else r)]
        if name == "__hash__":
            return [(st, T("hash", v))]
        if name == "__len__":
            return self.b_len(st, (v,), (), node, fr)
        if name == "__contains__" and args:
            r = self.in_(st, args[0], v)
            return [(st, cbool(r) if isinstance(r, bool) else r)]
        if name == "__iter__":
            return [(st, v)]
        if name in ("__getitem__", "__setitem__", "__delitem__") and v is not o:
            m = {"__getitem__": self.getitem, "__setitem__": self.setitem, "__delitem__": self.delitem}[name]
            return [(s, NONE if r is None else r) for s, r in m(st, v, *args, node, fr)]
        if name == "__setattr__" and len(args) == 2:
            st.attrs[(o, args[0])] = args[1]
            return [(st, NONE)]
        if name == "__getattribute__" and args:
            return self.getattr_(st, o, args[0], node, fr)
        bt = builtin_type(base)
        if bt is not None and not hasattr(bt, name):
            return [(st, self.exc("AttributeError", C(name)))]
        if v is not o:
            if isinstance(v, Ref):
                args = tuple(self.val(st, a) if isinstance(a, Term) and isinstance(self.val(st, a), Ref) else a for a in args)
                h = st.h(v)
                if h.kind == "set" if isinstance(h, HList) else False:
                    r = self.set_method(st, v, h, name, args)
                    if r is not None:
                        return r
            return self.call(st, T("method", v, C(name)), args, kw, node, fr)
        return self.opaque_call(st, T("attr", o, C(name)), args, kw, node, fr)

    def set_method(self, st, ref, h, name, args):
        put = lambda items: st.heap.__setitem__(ref.id, HList("set", tuple(items)))
        if not h.known():
            return None
        if name in ("intersection_update", "difference_update", "symmetric_difference_update", "__iand__", "__isub__", "__ixor__", "__ior__"):
            items = list(h.items)
            others = [self.spread(st, a) for a in args]
            for o in others:
                if any(isinstance(i, (Gen, Splice)) for i in o) or (name != "__ior__" and any(i != x and not (isinstance(i, C) and isinstance(x, C)) for i in items for x in o)):
                    put((Splice(T(name, self.freeze(st, ref), *[self.freeze(st, a) for a in args])),))
                    return [(st, NONE)]
            for o in others:
                if name in ("intersection_update", "__iand__"):
                    items = [i for i in items if i in o]
                elif name in ("difference_update", "__isub__"):
                    items = [i for i in items if i not in o]
                elif name == "__ior__":
                    items = list(dedupe(tuple(items) + tuple(o)))
                else:
                    items = [i for i in items if i not in o] + [i for i in o if i not in items]
            put(items)
            return [(st, NONE if not name.startswith("__") else ref)]
        if name in ("discard", "remove") and len(args) == 1 and isinstance(args[0], C) and all(isinstance(i, C) for i in h.items):
            rest = [i for i in h.items if i != args[0]]
            if name == "remove" and len(rest) == len(h.items):
                return [(st, self.exc("KeyError", args[0]))]
            put(rest)
            return [(st, NONE)]
        if name == "pop" and h.items:
            put(h.items[1:])
            return [(st, h.items[0])]
        return None

    def base_repr(self, st, base, o, v):
        if v is o:
            return T("repr", o)
        return self.repr_(st, v)

    def call(self, st, fn, args, kw, node, fr):
        if isinstance(fn, Term):
            if fn.op == "basemeth":
                return self.base_method(st, fn.args[0], fn.args[1], fn.args[2].v, args, kw, node, fr)
            if fn.op == "property":
                pass
            cv = self.obj_class(fn)
            if cv is not None:
                f = self.class_lookup(st, cv, "__call__")
                if isinstance(f, FuncVal):
                    return self.call_func(st, f, (fn,) + tuple(args), kw, node, fr)
                if self.known_class(cv):
                    return [(st, self.exc("TypeError", C("object is not callable")))]
            if fn.op == "type" and len(args) <= 1:
                pass
        if isinstance(fn, C) or isinstance(fn, Ref) and isinstance(st.h(fn), (HList, HDict)):
            return [(st, self.exc("TypeError", C("object is not callable")))]
        return Interp.call(self, st, fn, args, kw, node, fr)

    def call_ext(self, st, fn, args, kw, node, fr):
        name = fn.args[0]
        if "." in name and args and not isinstance(args[0], (Splice, Gen)):
            cls, _, meth = name.rpartition(".")
            if meth == "__new__" and isinstance(args[0], ClassVal) and (cls == "object" or cls in IMM or cls in MUT):
                return self.base_new(st, cls, args[0], args[1:], kw, node, fr)
            if (cls == "object" or cls in IMM or cls in MUT) and self.obj_class(args[0]) is not None:
                return self.base_method(st, cls, args[0], meth, args[1:], kw, node, fr)
        if name == "dir" and len(args) == 1 and not kw and self.obj_class(args[0]) is not None and self.known_class(self.obj_class(args[0])):
            names = set()
            for c in self.mro(self.obj_class(args[0])):
                if isinstance(c, ClassVal):
                    names |= set(k for k in c.ns if not k.startswith("$"))
                    names |= set(k.v for o, k in st.attrs if o is c and isinstance(k, C) and isinstance(k.v, str))
                else:
                    bt = builtin_type(c.args[0])
                    if bt is None:
                        return Interp.call_ext(self, st, fn, args, kw, node, fr)
                    names |= set(dir(bt))
            names |= set(k.v for o, k in st.attrs if o == args[0] and isinstance(k, C) and isinstance(k.v, str))
            names |= {"__dict__", "__module__", "__weakref__"}
            return [(st, st.alloc(HList("list", tuple(C(n) for n in sorted(names)))))]
        if name == "open":
            return self.instantiate(st, self.extclass["io.open"], args, kw, node, fr)
        if name in ("vars", "locals") and not args and not kw and fr.func == "class" and fr.eid in st.env:
            return [(st, st.alloc(HDict(tuple((C(k), v) for k, v in st.env[fr.eid].items() if not k.startswith("$")))))]
        if name in IMM and not kw and len(args) <= 1 and not any(isinstance(a, (Splice, Gen)) for a in args):
            return self.convert(st, name, args, node, fr)
        return Interp.call_ext(self, st, fn, args, kw, node, fr)

    # ------------------------------------------------------------ attributes
    def getattr_(self, st, o, name, node, fr):
        if isinstance(name, C) and isinstance(name.v, str):
            nm = name.v
            if isinstance(o, Term) and o.op == "rx" and nm == "pattern":
                return [(st, o.args[0])]
            if isinstance(o, Term) and o.op == "rxmatch" and nm == "string":
                return [(st, o.args[2])]
            if isinstance(o, Term) and o.op == "ext":
                c = self.extclass.get(o.args[0] + "." + nm)
                if c is not None:
                    return [(st, c)]
                if o.args[0] + "." + nm == "decimal.Decimal":
                    return [(st, T("ext", "decimal.Decimal"))]
            if isinstance(o, ClassVal) and (o, name) not in st.attrs and nm not in ("__name__", "__dict__", "__mro__", "__bases__", "__qualname__", "__module__"):
                v = self.class_lookup(st, o, nm)
                if v is None and self.known_class(o):
                    b = self.base_name(o)
                    bt = builtin_type(b)
                    if bt is not None and hasattr(bt, nm):
                        return [(st, T("ext", b + "." + nm))]
                    if nm == "__slots__":
                        return [(st, self.exc("AttributeError", name))]
                    return [(st, self.exc("AttributeError", name))]
            if isinstance(o, ClassVal) and nm in ("__qualname__", "__module__"):
                return [(st, C(o.qual if nm == "__qualname__" else o.module))]
            cv = self.obj_class(o)
            if cv is not None and (o, name) not in st.attrs and nm not in ("__class__", "__dict__"):
                if self.class_lookup(st, cv, nm) is None and self.known_class(cv):
                    b = self.base_name(cv)
                    bt = builtin_type(b)
                    if bt is not None and hasattr(bt, nm):
                        return [(st, T("basemeth", b, o, name))]
                    if nm in LXML and cv.module in ("etree_stub", "objectify_stub"):
                        raise AnalysisLimit("an element's %s" % nm)
                    g = self.class_lookup(st, cv, "__getattr__")
                    if isinstance(g, FuncVal):
                        return self.call_func(st, g, (o, name), (), node, fr)
                    return [(st, self.exc("AttributeError", name))]
            if isinstance(o, C) and not hasattr(o.v, nm) and (o, name) not in st.attrs:
                return [(st, self.exc("AttributeError", name))]
            if isinstance(o, Ref) and (o, name) not in st.attrs:
                h = st.h(o)
                t = {"list": list, "set": set, "deque": list, "tuple": tuple}.get(h.kind, list) if isinstance(h, HList) else dict
                if not hasattr(t, nm):
                    return [(st, self.exc("AttributeError", name))]
            x = self.exact(o)
            if x is not None and (o, name) not in st.attrs:
                bt = builtin_type(x)
                if bt is not None and not hasattr(bt, nm):
                    return [(st, self.exc("AttributeError", name))]
                if bt is not None:
                    return [(st, T("method", o, name))]
        return Interp.getattr_(self, st, o, name, node, fr)

    def super_attr(self, st, sup, name):
        cls, obj = sup.args
        cv = self.obj_class(obj) if not isinstance(obj, ClassVal) else obj
        if cv is not None and isinstance(cls, ClassVal):
            chain = self.mro(cv)
            if cls in chain:
                rest = chain[chain.index(cls) + 1:]
                for c in rest:
                    if isinstance(c, ClassVal):
                        v = st.attrs.get((c, name)) or c.ns.get(name.v)
                        if v is not None:
                            if isinstance(v, FuncVal) and v.kind not in ("staticmethod",) and name.v != "__new__":
                                return [(st, Bound(v, obj))]
                            return [(st, v)]
                bs = [c.args[0] for c in rest if isinstance(c, Term) and c.op in ("exttype", "ext") and c.args[0] != "object"] + ["object"]
                for b in bs:
                    bt = builtin_type(b)
                    if bt is None:
                        break
                    if hasattr(bt, name.v):
                        if isinstance(obj, ClassVal) or name.v == "__new__":
                            return [(st, T("ext", b + "." + name.v))]
                        return [(st, T("basemeth", b, obj, name))]
                else:
                    return [(st, self.exc("AttributeError", name))]
        return Interp.super_attr(self, st, sup, name)

    def hasattr_(self, st, o, name):
        if isinstance(name, C) and isinstance(name.v, str):
            nm = name.v
            if isinstance(o, Term) and o.op == "super":
                cls, obj = o.args
                cv = self.obj_class(obj) if not isinstance(obj, ClassVal) else obj
                if cv is not None and isinstance(cls, ClassVal) and cls in self.mro(cv) and self.known_class(cv):
                    r = self.super_attr(st, o, name)
                    return not isinstance(r[0][1], Raise)
            cv = o if isinstance(o, ClassVal) else self.obj_class(o)
            if cv is not None:
                if (o, name) in st.attrs:
                    return st.attrs[(o, name)] is not None
                v = self.class_lookup(st, cv, nm)
                if v is not None:
                    if self.obj_class(o) is not None and isinstance(v, Term) and v.op == "property" and isinstance(v.args[0], FuncVal):
                        td, self.trydepth = self.trydepth, 1
                        try:
                            r = self.call_func(st.clone(), v.args[0], (o,), (), None, Frame(("m:" + v.args[0].module,), v.args[0].module))
                        finally:
                            self.trydepth = td
                        if all(isinstance(x, Raise) and self.exc_matches(x.exc, T("exttype", "AttributeError")) is True for _, x in r):
                            return False
                    return True
                if self.known_class(cv):
                    bt = builtin_type(self.base_name(cv))
                    if isinstance(o, ClassVal) and nm in ("__name__", "__mro__", "__bases__", "__dict__", "__qualname__", "__module__"):
                        return True
                    if nm == "__dict__":
                        return not all("__slots__" in c.ns for c in self.mro(cv) if isinstance(c, ClassVal))
                    return hasattr(bt, nm)
            if isinstance(o, Ref) and (o, name) in st.attrs:
                return True
            if isinstance(o, Term) and o.op in ("ext", "exttype") and builtin_type(o.args[0]) is not None and (o, name) not in st.attrs:
                return hasattr(builtin_type(o.args[0]), nm)
            x = self.exact(o)
            if x is not None and builtin_type(x) is not None:
                return hasattr(builtin_type(x), nm)
            if isinstance(o, (Bound,)):
                return nm in ("__call__", "__name__", "__self__", "__func__", "__doc__")
        return Interp.hasattr_(self, st, o, name)

    def setattr_(self, st, o, name, v, node, fr):
        cv = self.obj_class(o)
        if cv is not None and isinstance(name, C):
            p = self.class_lookup(st, cv, name.v)
            if isinstance(p, Term) and p.op == "property":
                if isinstance(p.args[1], FuncVal):
                    return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(st, p.args[1], (o, v), (), node, fr)]
                return [(st, self.exc("AttributeError", C("can't set attribute")))]
            f = self.class_lookup(st, cv, "__setattr__")
            if isinstance(f, FuncVal):
                return [(s, r if isinstance(r, Raise) else None) for s, r in self.call_func(st, f, (o, name, v), (), node, fr)]
            if (o, name) not in st.attrs and not self.may_set(st, cv, name.v):
                return [(st, self.exc("AttributeError", name))]
        return Interp.setattr_(self, st, o, name, v, node, fr)

    def may_set(self, st, cv, nm):
        """Do the slots of the class allow the attribute?"""
        names = set()
        for c in self.mro(cv):
            if not isinstance(c, ClassVal):
                if c.args[0] != "object" and c.args[0] not in IMM and c.args[0] not in MUT:
                    return True
                continue
            sl = c.ns.get("__slots__")
            if sl is None:
                return True
            if isinstance(sl, C) and isinstance(sl.v, str):
                items = (sl,)
            else:
                items = self.spread(st, sl)
            for i in items:
                if not isinstance(i, C):
                    return True
                n = i.v
                if n == "__dict__":
                    return True
                if n.startswith("__") and not n.endswith("__"):
                    n = "_%s%s" % (c.name.lstrip("_"), n)
                names.add(n)
        return nm in names

    # ------------------------------------------------------------ types
    def type_of(self, st, v):
        x = self.exact(v)
        if x is not None:
            return T("exttype", x)
        if isinstance(v, Term) and v.op in ("int", "len", "idx"):
            return T("exttype", "int")
        if isinstance(v, Term) and v.op == "decimal":
            return T("ext", "decimal.Decimal")
        if isinstance(v, ClassVal) or (isinstance(v, Term) and v.op == "exttype") or v is T("ext", "decimal.Decimal"):
            return T("exttype", "type")
        return Interp.type_of(self, st, v)

    def isinst(self, st, v, cls):
        if isinstance(cls, Term) and cls.op == "tuple":
            return Interp.isinst(self, st, v, cls)
        if isinstance(v, Term) and v.op == "sliceobj" and isinstance(cls, (ClassVal, Term)):
            return cbool(cls is T("exttype", "slice") or cls is T("exttype", "object"))
        if isinstance(cls, Term) and cls.op in ("str", "tostr", "repr"):
            return Interp.isinst(self, st, v, cls)
        cv = self.obj_class(v)
        kind = None
        if cv is not None:
            if isinstance(cls, ClassVal):
                return cbool(cls in self.mro(cv))
            if self.known_class(cv):
                kind = self.base_name(cv)
                if kind == "collections.OrderedDict":
                    kind = "dict"
        else:
            kind = self.exact(v)
            if kind is None and isinstance(v, Term):
                kind = {"int": "int", "len": "int", "idx": "int", "decimal": "decimal.Decimal", "float": "float", "str": "str", "tostr": "str", "repr": "str"}.get(v.op)
            if kind is None and isinstance(v, Term) and v.op == "tuple":
                kind = "tuple"
            if isinstance(v, (ClassVal,)) or (isinstance(v, Term) and v.op == "exttype"):
                kind = "type"
            if isinstance(v, (FuncVal, Bound)):
                kind = "function"
            if isinstance(cls, ClassVal) and (kind is not None or isinstance(v, (C, Ref))):
                return FALSE
        if kind is not None:
            n = clsname(cls)
            if isinstance(cls, Term) and cls.op in ("ext", "exttype"):
                full = cls.args[0]
                ct = builtin_type(full)
                bt = builtin_type(kind)
                if kind == "type":
                    return cbool(full in ("type", "object"))
                if kind == "function":
                    return cbool(full == "object")
                if ct is not None and bt is not None:
                    return cbool(issubclass(bt, ct))
                if full.startswith(("collections.", "lxml", "enum", "uuid")):
                    import collections.abc as cabc
                    a = getattr(cabc, n or "", None)
                    if full.startswith("collections.abc") and isinstance(a, type) and bt is not None:
                        return cbool(issubclass(bt, a))
                    return FALSE
        if isinstance(v, Ref) and isinstance(cls, Term) and cls.op in ("ext", "exttype"):
            h = st.h(v)
            ct = builtin_type(cls.args[0])
            if cls.args[0] == "collections.OrderedDict":
                return FALSE if isinstance(h, HList) else Interp.isinst(self, st, v, cls)
            bt = {"list": list, "set": set, "tuple": tuple}.get(h.kind) if isinstance(h, HList) else dict
            if ct is not None and bt is not None:
                return cbool(issubclass(bt, ct))
        return Interp.isinst(self, st, v, cls)

    # ------------------------------------------------------------ truth, equality, order, membership
    def as_bool(self, st, v):
        cv = self.obj_class(v)
        if cv is not None and self.known_class(cv):
            for nm in ("__bool__", "__len__"):
                f = self.class_lookup(st, cv, nm)
                if isinstance(f, FuncVal):
                    r = self.pure_run(st, f, (v,))
                    if r is None:
                        return T("truthy", v)
                    return self.as_bool(st, r)
            x = self.val(st, v)
            if x is not v:
                return self.as_bool(st, x)
            return True
        if isinstance(v, Term) and v.op == "basemeth":
            return True
        return Interp.as_bool(self, st, v)

    def eq_(self, st, a, b, ident=False):
        if a is b:
            return True
        oa, ob = self.obj_class(a), self.obj_class(b)
        if ident:
            if oa is not None or ob is not None:
                if isinstance(a, (C, Ref, FuncVal, ClassVal, Bound)) or isinstance(b, (C, Ref, FuncVal, ClassVal, Bound)):
                    return False
                if oa is not None and ob is not None:
                    return False
                for x in (a, b):
                    if self.obj_class(x) is None and (self.exact(x) or (isinstance(x, Term) and x.op in ("str", "int", "tostr", "len", "exttype"))):
                        return False
            if isinstance(a, Term) and isinstance(b, C) and (self.exact(a) or a.op in ("str", "tostr", "int", "decimal", "exttype")) and (b.v is None or isinstance(b.v, bool)) and not (self.exact(a) == "bool"):
                return False
            if isinstance(b, Term) and isinstance(a, C) and (self.exact(b) or b.op in ("str", "tostr", "int", "decimal", "exttype")) and (a.v is None or isinstance(a.v, bool)) and not (self.exact(b) == "bool"):
                return False
            return Interp.eq_(self, st, a, b, ident)
        for x, y in ((a, b), (b, a)):
            f = self.special(st, x, "__eq__")
            if f is not None:
                r = self.pure_run(st, f, (x, y))
                if r is None:
                    return T("eq", a, b)
                return self.as_bool(st, r)
        va, vb = self.val(st, a), self.val(st, b)
        if (oa is not None and va is a) or (ob is not None and vb is b):
            # identity comparison of plain objects
            if oa is not None and va is a and self.known_class(oa) and (ob is not None or not isinstance(vb, Term) or self.kind(vb)):
                return False
            if ob is not None and vb is b and self.known_class(ob) and (oa is not None or not isinstance(va, Term) or self.kind(va)):
                return False
        ka, kb = self.kind(va), self.kind(vb)
        if ka == kb == "type" and isinstance(va, (ClassVal, Term)) and isinstance(vb, (ClassVal, Term)) and all(isinstance(x, ClassVal) or x.op == "exttype" for x in (va, vb)):
            return False
        if ka and kb and ka != kb:
            num = {"int", "float", "bool", "decimal.Decimal"}
            if not (ka in num and kb in num) and not ({ka, kb} <= {"set", "frozenset"}):
                return False
        if isinstance(va, Ref) and isinstance(vb, Ref):
            ha, hb = st.h(va), st.h(vb)
            if isinstance(ha, HList) and isinstance(hb, HList) and ha.kind == hb.kind == "list" and ha.known() and hb.known():
                if len(ha.items) != len(hb.items):
                    return False
                rs = [self.eq_(st, x, y) for x, y in zip(ha.items, hb.items)]
                if all(r is True for r in rs):
                    return True
                if any(r is False for r in rs):
                    return False
                rs = [r for r in rs if r is not True]
                if len(rs) == 1:
                    return rs[0]
            if isinstance(ha, HList) and isinstance(hb, HList) and ha.kind == hb.kind == "set" and ha.known() and hb.known() and all(isinstance(x, C) for x in ha.items + hb.items):
                return {x.v for x in ha.items} == {x.v for x in hb.items}
        return Interp.eq_(self, st, va, vb, False)

    def kind(self, v):
        if isinstance(v, C):
            return None if v.v is None else ("decimal.Decimal" if isinstance(v.v, decimal.Decimal) else type(v.v).__name__)
        if isinstance(v, Term):
            x = self.exact(v)
            if x:
                return x
            return {"str": "str", "tostr": "str", "repr": "str", "int": "int", "len": "int", "decimal": "decimal.Decimal", "float": "float", "tuple": "tuple", "exttype": "type"}.get(v.op)
        if isinstance(v, ClassVal):
            return "type"
        if isinstance(v, (FuncVal, Bound)):
            return "function"
        return None

    def lt_(self, st, x, y):
        return Interp.lt_(self, st, self.val(st, x), self.val(st, y))

    def in_(self, st, a, b):
        f = self.special(st, b, "__contains__")
        if f is not None:
            r = self.pure_run(st, f, (b, a))
            if r is None:
                return T("in", a, b)
            return self.as_bool(st, r)
        f = self.special(st, b, "__iter__")
        if f is not None:
            r = self.pure_run(st, f, (b,))
            if r is not None:
                return self.in_(st, a, r)
        b = self.val(st, b)
        items = None
        if isinstance(b, Ref):
            h = st.h(b)
            if all(not isinstance(i, (Gen, Splice)) for i in h.items):
                items = [i[0] if isinstance(i, tuple) else i for i in h.items]
        elif isinstance(b, Term) and b.op in ("tuple", "list", "set") and all(isinstance(i, V) for i in b.args):
            items = list(b.args)
        if items is not None:
            un = []
            for i in items:
                if i is a:
                    return True
                r = self.eq_(st, i, a)
                if r is True:
                    return True
                if r is not False:
                    un.append((i, r))
            if not un:
                return False
            if any(self.obj_class(i) for i, _ in un) or self.obj_class(a):
                ats = [r for _, r in un]
                return ats[0] if len(ats) == 1 else T("or", *ats)
        return Interp.in_(self, st, self.val(st, a) if not isinstance(self.val(st, a), Ref) else a, b)

    # ------------------------------------------------------------ conversions and text
    def b_len(self, st, args, kw, node, fr):
        f = self.special(st, args[0], "__len__")
        if f is not None:
            return self.call_func(st, f, (args[0],), (), node, fr)
        v = self.val(st, args[0])
        if v is args[0]:
            cv = self.obj_class(v)
            if cv is not None and self.known_class(cv):
                return [(st, self.exc("TypeError", C("object has no len()")))]
            if isinstance(v, C) and not hasattr(v.v, "__len__"):
                return [(st, self.exc("TypeError", C("object has no len()")))]
            if isinstance(v, Term) and self.kind(v) in ("int", "float", "decimal.Decimal"):
                return [(st, self.exc("TypeError", C("object has no len()")))]
        if isinstance(v, Ref):
            h = st.h(v)
            if h.known() and isinstance(h, HList) and h.kind == "set":
                if all(isinstance(i, C) for i in h.items):
                    return [(st, C(len(h.items)))]
        return Interp.b_len(self, st, (v,), kw, node, fr)

    def b_int(self, st, args, kw, node, fr):
        if len(args) == 1 and not kw:
            f = self.special(st, args[0], "__int__")
            if f is not None:
                return self.call_func(st, f, (args[0],), (), node, fr)
            v = self.val(st, args[0])
            k = self.kind(v)
            if k == "int":
                return [(st, v)]
            if isinstance(v, Ref) or k in ("tuple", "type", "function", "list", "dict", "set") or v is NONE or (self.obj_class(v) is not None and self.known_class(self.obj_class(v))):
                return [(st, self.exc("TypeError", C("int() argument")))]
            if isinstance(v, C):
                try:
                    return [(st, C(int(v.v)))]
                except Exception as e:
                    return [(st, self.exc(type(e).__name__, C("invalid literal for int()")))]
            if k == "str":
                t = T("int", v)
                a = T("raises", t)
                d = decide(st.facts, a)
                if d is False:
                    return [(st, t)]
                if d is True:
                    return [(st, self.exc("ValueError", t))]
                s2 = st.clone()
                assume(st, a, False)
                assume(s2, a, True)
                return [(st, t), (s2, self.exc("ValueError", t))]
            return Interp.b_int(self, st, (v,), kw, node, fr)
        return Interp.b_int(self, st, args, kw, node, fr)

    def b_str(self, st, args, kw, node, fr):
        if len(args) == 1 and not kw:
            v = args[0]
            for nm in ("__str__", "__repr__"):
                f = self.special(st, v, nm)
                if f is not None:
                    return self.call_func(st, f, (v,), (), node, fr)
            return [(st, self.tostr(st, v))]
        v = self.val(st, args[0]) if args else None
        if isinstance(v, C) and isinstance(v.v, bytes) and all(isinstance(a, C) for a in args[1:]) and all(isinstance(x, C) for _, x in kw):
            try:
                return [(st, C(str(v.v, *[a.v for a in args[1:]], **{k: x.v for k, x in kw})))]
            except Exception as e:
                return [(st, self.exc(type(e).__name__))]
        return Interp.b_str(self, st, args, kw, node, fr)

    def b_repr(self, st, args, kw, node, fr):
        f = self.special(st, args[0], "__repr__")
        if f is not None:
            return self.call_func(st, f, (args[0],), (), node, fr)
        return [(st, self.repr_(st, args[0]))]

    def text(self, st, v):
        """str(v) as a value, following special methods (None: not known)."""
        for nm in ("__str__", "__repr__"):
            f = self.special(st, v, nm)
            if f is not None:
                return self.pure_run(st, f, (v,))
        return None

    def class_text(self, v):
        if isinstance(v, ClassVal):
            q = v.qual.replace(".", ".<locals>.") if "." in v.qual else v.qual
            return C("<class '%s.%s'>" % (v.module, q))
        if isinstance(v, Term) and v.op == "exttype":
            return C("<class '%s'>" % v.args[0])
        if isinstance(v, Term) and v.op == "ext" and v.args[0] in ("decimal.Decimal", "collections.OrderedDict"):
            return C("<class '%s'>" % v.args[0])
        return None

    def fmt(self, st, v):
        if isinstance(v, Term) and v.op == "obj":
            r = self.text(st, v)
            if r is not None:
                return Interp.fmt(self, st, r)
            x = self.val(st, v)
            if x is not v and self.special(st, v, "__str__") is None:
                return Interp.fmt(self, st, x)
        r = self.class_text(v)
        if r is not None:
            return r
        if isinstance(v, Term) and self.exact(v) == "str":
            return v
        return Interp.fmt(self, st, v)

    def format_spec(self, st, v, spec):
        if isinstance(v, Term) and v.op == "obj" and self.special(st, v, "__format__") is None:
            v = self.val(st, v)
        return Interp.format_spec(self, st, v, spec)

    def tostr(self, st, v):
        if isinstance(v, Term) and v.op == "obj":
            r = self.text(st, v)
            if r is not None:
                return Interp.tostr(self, st, r)
            x = self.val(st, v)
            if x is not v and self.special(st, v, "__str__") is None:
                return Interp.tostr(self, st, x)
        r = self.class_text(v)
        if r is not None:
            return r
        if isinstance(v, Term) and self.exact(v) == "str":
            return v
        return Interp.tostr(self, st, v)

    def repr_(self, st, v, d=0):
        if isinstance(v, Term) and v.op == "obj":
            f = self.special(st, v, "__repr__")
            if f is not None:
                r = self.pure_run(st, f, (v,))
                if r is not None:
                    return r
                return T("repr", v)
            x = self.val(st, v)
            if x is not v:
                return Interp.repr_(self, st, x, d)
        r = self.class_text(v)
        if r is not None:
            return r
        return Interp.repr_(self, st, v, d)

    def str_method(self, st, o, m, args, kw, node, fr):
        args = tuple(self.val(st, a) if isinstance(a, Term) and a.op == "obj" and not isinstance(self.val(st, a), Ref) else a for a in args)
        return Interp.str_method(self, st, o, m, args, kw, node, fr)

    # ------------------------------------------------------------ iteration, items, arithmetic
    def segments(self, st, v):
        f = self.special(st, v, "__iter__")
        if f is not None:
            r = self.pure_keep(st, f, (v,))
            if r is not None:
                return self.segments(st, r)
            return Interp.segments(self, st, v)
        x = self.val(st, v)
        if isinstance(x, Term) and x.op == "iter":
            return self.segments(st, x.args[0])
        return Interp.segments(self, st, x)

    def pure_keep(self, st, f, args):
        """Like pure_run, for a call that builds the collection to iterate over: the state is taken over."""
        self._pure += 1
        try:
            if self._pure > 12:
                return None
            s2 = st.clone()
            outs = self.call_func(s2, f, args, (), None, Frame(("m:" + f.module,), f.module))
        finally:
            self._pure -= 1
        if len(outs) != 1 or isinstance(outs[0][1], Raise):
            return None
        s, v = outs[0]
        if set(s.facts) != set(st.facts):
            return None
        st.heap.update(s.heap)
        st.ctr = max(st.ctr, s.ctr)
        return v

    def spread(self, st, v):
        f = self.special(st, v, "__iter__")
        if f is not None:
            r = self.pure_keep(st, f, (v,))
            if r is not None:
                return self.spread(st, r)
        return Interp.spread(self, st, self.val(st, v))

    def unhashable(self, st, k):
        if isinstance(k, Ref):
            h = st.h(k)
            return isinstance(h, HDict) or (isinstance(h, HList) and h.kind in ("list", "set"))
        cv = self.obj_class(k)
        if cv is None or not self.known_class(cv) or self.class_lookup(st, cv, "__hash__") is not None:
            return False
        return self.base_name(cv) in MUT

    def dict_method(self, st, o, h, m, args, kw, node, fr):
        if m in ("get", "pop", "setdefault") and args and self.unhashable(st, args[0]):
            return [(st, self.exc("TypeError", C("unhashable type")))]
        return Interp.dict_method(self, st, o, h, m, args, kw, node, fr)

    def getitem(self, st, o, k, node, fr):
        if isinstance(o, Ref) and isinstance(st.h(o), HDict) and self.unhashable(st, k):
            return [(st, self.exc("TypeError", C("unhashable type")))]
        cv = self.obj_class(o)
        if cv is not None and not isinstance(self.class_lookup(st, cv, "__getitem__"), FuncVal):
            x = self.val(st, o)
            if x is not o:
                o = x
        if isinstance(o, Ref) and not isinstance(st.h(o), HDict) or isinstance(o, Term) and o.op in ("tuple", "list"):
            if self.obj_class(k) is not None:
                x = self.val(st, k)
                if isinstance(x, C) and isinstance(x.v, int):
                    k = C(int(x.v))
            elif isinstance(k, C) and isinstance(k.v, bool):
                k = C(int(k.v))
        return Interp.getitem(self, st, o, k, node, fr)

    def within(self, st, o, name):
        """What an item of the object is put in or taken from: its own method, the built-in data it extends, or nothing (no items: a TypeError)."""
        cv = self.obj_class(o)
        if cv is None or isinstance(self.class_lookup(st, cv, name), FuncVal):
            return o
        x = self.val(st, o)
        if x is not o:
            return x
        if cv.module in ("etree_stub", "objectify_stub", "containers", "files_stub"):
            raise AnalysisLimit("%s of a %s" % (name, cv.name))
        return None if self.known_class(cv) and self.base_name(cv) == "object" else o

    def setitem(self, st, o, k, v, node, fr):
        o = self.within(st, o, "__setitem__")
        if o is None:
            return [(st, self.exc("TypeError", C("object does not support item assignment")))]
        return Interp.setitem(self, st, o, k, v, node, fr)

    def delitem(self, st, o, k, node, fr):
        o = self.within(st, o, "__delitem__")
        if o is None:
            return [(st, self.exc("TypeError", C("object does not support item deletion")))]
        return Interp.delitem(self, st, o, k, node, fr)

    def delattr_(self, st, o, name, node, fr):
        cv = self.obj_class(o)
        if cv is not None and isinstance(name, C):
            f = self.class_lookup(st, cv, "__delattr__")
            if isinstance(f, FuncVal):
                return [(s, r if isinstance(r, Raise) else None) for s, r in self.call_func(st, f, (o, name), (), node, fr)]
            p = self.class_lookup(st, cv, name.v)
            if isinstance(p, Term) and p.op == "property":
                if len(p.args) > 2 and isinstance(p.args[2], FuncVal):
                    return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(st, p.args[2], (o,), (), node, fr)]
                return [(st, self.exc("AttributeError", C("can't delete attribute")))]
            if st.attrs.get((o, name)) is not None:
                st.attrs.pop((o, name))
                return [(st, None)]
            if self.known_class(cv) and (o, name) not in st.attrs:
                return [(st, self.exc("AttributeError", name))]
        return Interp.delattr_(self, st, o, name, node, fr)

    def binop(self, op, a, b, st, n, fr):
        meth = {"Add": "__add__", "Sub": "__sub__", "BitAnd": "__and__", "BitOr": "__or__", "BitXor": "__xor__"}.get(op)
        if meth and self.obj_class(a) is not None:
            f = self.special(st, a, meth)
            if f is not None:
                return self.call_func(st, f, (a, b), (), n, fr)
        if op == "Mod":
            return Interp.binop(self, op, self.val(st, a), b, st, n, fr)
        va, vb = self.val(st, a), self.val(st, b)
        if op in ("Sub", "BitAnd", "BitOr", "BitXor") and isinstance(va, Ref) and isinstance(vb, Ref):
            ha, hb = st.h(va), st.h(vb)
            if isinstance(ha, HList) and isinstance(hb, HList) and ha.kind == hb.kind == "set" and ha.known() and hb.known() and all(isinstance(x, C) for x in ha.items + hb.items):
                x, y = ha.items, hb.items
                r = [i for i in x if (op in ("BitOr", "BitXor") or i in y)] if op in ("BitAnd", "BitOr") else [i for i in x if i not in y]
                r += [i for i in y if i not in x] if op in ("BitOr", "BitXor") else []
                return [(st, st.alloc(HList("set", tuple(r))))]
        return Interp.binop(self, op, va, vb, st, n, fr)

    # ------------------------------------------------------------ loops with decidable conditions
    def x_While(self, n, st, fr):
        cur = [st]
        out = []
        steps = 0
        while cur:
            nx = []
            for s in cur:
                probe = self.cond(n.test, s.clone(), fr)
                if len(probe) != 1 or steps > 3000:
                    out.extend(Interp.x_While(self, n, s, fr))
                    continue
                s2, b = probe[0]
                if isinstance(b, Raise):
                    out.append((s2, b))
                elif not b:
                    out.extend(self.exec_block(n.orelse, s2, fr) if n.orelse else [(s2, None)])
                else:
                    for s3, sig in self.exec_block(n.body, s2, fr):
                        if sig is None or sig == ("cont",):
                            nx.append((s3, None))
                        elif sig == ("break",):
                            out.append((s3, None))
                        else:
                            out.append((s3, sig))
            cur = [s for s, _ in self.merge(nx)]
            steps += 1
        return self.merge(out)
