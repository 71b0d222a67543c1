"""Schema skeletons: statement trees with placeholder names, given to the analysed generator as abstract inputs."""

import os
import re

from .objmodel import *

DATA = ("container", "leaf", "leaf-list", "list", "choice", "case", "anyxml", "rpc", "notification", "input", "output", "anydata")
PARENTS = ("container", "list", "module", "submodule", "choice", "case", "rpc", "notification", "input", "output", "grouping")
_f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "skel_stub.py")
_src = open(_f).read()
DEFKW = ("container", "leaf", "leaf-list", "list", "case", "choice", "anyxml", "anydata", "uses", "augment")


def S(kw, arg=None, *subs, **attrs):
    return (kw, arg, subs, attrs)


class Skeleton(object):
    """Loads the generator in `it` and turns skeletons into abstract statement objects."""

    def __init__(self, it, **opts):
        self.it = it
        it.load("pyangbind.plugin.pybind")
        it.load("pyangbind.helpers.misc")
        it.load("pyangbind.helpers.identity")
        it.closed_mods.add("skel")
        it.hooks["os.fsync"] = lambda i, s, f, a, k, site: [(s, NONE)]
        if "skel" not in it.modules:
            it.load_source("skel", _src, _f)
        env = it.base.env["m:skel"]
        it.extclass["pyang.util.prefix_to_module"] = env["prefix_to_module"]
        it.extclass["pyang.statements.data_definition_keywords"] = tup([C(x) for x in DEFKW])
        self.cls = {n: env[n] for n in ("Stmt", "Opts", "Ctx", "Fd")}
        self.st = it.base.clone()
        self.st.events = ()
        self.st.ctr = max(self.st.ctr, 20_000_000)
        self.mods = {}
        self.subs = {}
        o = dict(use_xpathhelper=False, use_extmethods=False, split_class_dir=None, generate_presence=False, build_rpcs=False, build_notifications=False, pybind_interested_exts=[])
        o.update(opts)
        self.opts = self.obj("Opts", **{k: self.val(v) for k, v in o.items()})
        self.modref = self.st.alloc(HDict(()))
        self.ctxmods = self.st.alloc(HDict(()))
        self.errors = self.st.alloc(HList("list", ()))
        self.ctx = self.obj("Ctx", opts=self.opts, errors=self.errors, mods=self.modref, modules=self.ctxmods)
        self.out = self.st.alloc(HList("list", ()))
        self.fd = self.obj("Fd", out=self.out)
        self.files = self.st.alloc(HDict(()))
        h = it.hooks
        h["os.path.abspath"] = lambda i, s, f, a, k, site: [(s, a[0])]
        h["os.path.exists"] = lambda i, s, f, a, k, site: [(s, C(self.find(s, a[0]) is not None))] if isinstance(a[0], C) else None
        h["os.makedirs"] = lambda i, s, f, a, k, site: [(self.put(s, a[0], NONE), NONE)] if isinstance(a[0], C) else None
        h["open"] = self.open

    def val(self, v):
        if isinstance(v, V):
            return v
        if isinstance(v, list):
            return self.st.alloc(HList("list", tuple(self.val(x) for x in v)))
        if isinstance(v, tuple):
            return tup([self.val(x) for x in v])
        if isinstance(v, dict):
            return self.st.alloc(HDict(tuple((self.val(k), self.val(x)) for k, x in v.items())))
        return C(v)

    def obj(self, cls, **attrs):
        o = T("obj", C(self.st.fresh()), self.cls[cls])
        for k, v in attrs.items():
            self.st.attrs[(o, C(k))] = v
        return o

    def stmt(self, s, module=None, main=None):
        kw, arg, subs, attrs = s
        o = T("obj", C(self.st.fresh()), self.cls["Stmt"])
        if "aug" in attrs:  # put here by an augment of that module
            module = main = self.mods[attrs["aug"]]
            attrs = {k: v for k, v in attrs.items() if k != "aug"}
        mod = o if module is None else module
        mm = main or mod
        if kw == "module":
            self.mods[arg] = o
        kids = [self.stmt(x, mod, mm) for x in subs]
        A = self.st.attrs
        A[(o, C("keyword"))] = self.val(kw)
        A[(o, C("arg"))] = self.val(arg)
        A[(o, C("pos"))] = C("pos")
        A[(o, C("substmts"))] = self.val(kids)
        A[(o, C("i_module"))] = mod
        A[(o, C("i_main"))] = mm
        A[(o, C("i_orig_module"))] = mod
        A[(o, C("i_ctx"))] = self.ctx
        A[(o, C("parent"))] = NONE
        A[(o, C("i_typedef"))] = NONE
        self.subs[o] = kids
        if kw in PARENTS:
            A[(o, C("i_children"))] = self.val([k for k, x in zip(kids, subs) if x[0] in DATA])
        for k in kids:
            A[(k, C("parent"))] = o
        for k, v in attrs.items():
            A[(o, C(k))] = self.val(v)
        return o

    def module(self, name, *subs, **kw):
        ns = kw.get("ns", "urn:" + name)
        prefix = kw.get("prefix", name[:3])
        if kw.get("keyword") == "submodule":
            head = [S("belongs-to", kw["belongs_to"], S("prefix", prefix))]
            m = self.stmt(S("submodule", name, *(head + list(subs))), None, self.mods[kw["belongs_to"]] if kw["belongs_to"] in self.mods else None)
        else:
            m = self.stmt(S("module", name, S("namespace", ns), S("prefix", prefix), *subs))
        A = self.st.attrs
        A[(m, C("i_modulename"))] = self.val(kw.get("belongs_to", name))
        h = self.st.h(self.modref)
        self.st.heap[self.modref.id] = HDict(h.items + ((C(name), m),))
        h = self.st.h(self.ctxmods)
        self.st.heap[self.ctxmods.id] = HDict(h.items + ((tup((C(name), C("2020"))), m),))
        if kw.get("keyword") == "submodule" and kw["belongs_to"] in self.mods:
            # what it defines is the module's, too
            ours = A[(self.mods[kw["belongs_to"]], C("i_children"))]
            h = self.st.h(ours)
            self.st.heap[ours.id] = HList("list", h.items + self.st.h(A[(m, C("i_children"))]).items)
        self.mods[name] = m
        return m

    # files written when classes are split
    def find(self, st, path):
        return next((v for k, v in st.h(self.files).items if k.v == path.v or k.v.rstrip("/") == path.v.rstrip("/")), None)

    def put(self, st, path, v):
        st.heap[self.files.id] = HDict(tuple(x for x in st.h(self.files).items if x[0] != path) + ((path, v),))
        return st

    def open(self, it, st, fn, args, kw, site):
        kw = dict(kw)
        mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
        if not (isinstance(args[0], C) and isinstance(mode, C) and mode.v in ("w", "a")):
            return None
        path = C(os.path.normpath(args[0].v))
        out = self.find(st, path)
        if out is None or out is NONE or mode.v == "w":
            out = st.alloc(HList("list", ()))
            self.put(st, path, out)
        o = T("obj", C(st.fresh()), self.cls["Fd"])
        st.attrs[(o, C("out"))] = out
        return [(st, o)]

    def split(self, *mods):
        """Files written for the modules with split classes: [(state, {path: text} | Raise)]"""
        lst = self.st.alloc(HList("list", tuple(mods)))
        res = []
        for s, v in self.run("build_pybind", {"ctx": self.ctx, "modules": lst, "fd": self.fd}):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            files = {}
            for k, o in s.h(self.files).items:
                if o is not NONE:
                    h = s.heap.get(o.id)
                    files[k.v] = mkstr(h.items) if h is not None and h.known() else None
            res.append((s, files))
        return res

    def of(self, o, name):
        v = self.st.attrs.get((o, C(name)))
        return v.v if isinstance(v, C) and name != "parent" else v

    def kids(self, o, kw):
        return [k for k in self.subs[o] if self.of(k, "keyword") == kw]

    def prefixed(self, mod, prefix):
        """Module that the prefix stands for in a module or submodule."""
        if any(self.of(p, "arg") == prefix for p in self.kids(mod, "prefix") + [p for b in self.kids(mod, "belongs-to") for p in self.kids(b, "prefix")]):
            return mod
        for i in self.kids(mod, "import"):
            if any(self.of(p, "arg") == prefix for p in self.kids(i, "prefix")):
                return self.mods.get(self.of(i, "arg"))
        return None

    def tops(self, mod):
        """The module with all of its submodules, or those of a submodule."""
        names = [self.of(b, "arg") for b in self.kids(mod, "belongs-to")]
        main = self.mods.get(names[0], mod) if names else mod
        return [mod, main] + [m for m in self.mods.values() if any(self.mods.get(self.of(b, "arg")) is main for b in self.kids(m, "belongs-to"))]

    def link(self):
        """What pyang resolves: the typedef that a type statement names."""
        for o in list(self.subs):
            if self.of(o, "keyword") != "type":
                continue
            name = self.of(o, "arg")
            mod = self.st.attrs[(o, C("i_orig_module"))]
            if not isinstance(name, str):
                continue
            found = None
            if ":" in name:
                p, name = name.split(":", 1)
                mod = self.prefixed(mod, p)
            else:
                up = self.of(o, "parent")
                while up is not None and up is not NONE and found is None and self.st.attrs[(up, C("i_orig_module"))] is mod:
                    found = next((t for t in self.kids(up, "typedef") if self.of(t, "arg") == name and up is not mod), None)
                    up = self.of(up, "parent")
            if found is None and mod is not None:
                found = next((t for m in self.tops(mod) for t in self.kids(m, "typedef") if self.of(t, "arg") == name), None)
            if found is not None:
                self.st.attrs[(o, C("i_typedef"))] = found

    def run(self, fname, args, st=None):
        if st is None:
            self.link()
        f = self.it.get("pyangbind.plugin.pybind:" + fname)
        return self.it.run(f, args, st=(st or self.st))

    def generate(self, *mods):
        """Emitted code for the modules: [(state, text term | Raise)]"""
        lst = self.st.alloc(HList("list", tuple(mods)))
        outs = self.run("build_pybind", {"ctx": self.ctx, "modules": lst, "fd": self.fd})
        res = []
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            h = s.heap.get(self.out.id)
            txt = mkstr(h.items) if h is not None and h.known() else None
            res.append((s, txt))
        return res
