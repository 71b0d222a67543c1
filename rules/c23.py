"""C23: an identityref accepts exactly the identities derived from its base."""

import itertools

from .common import *

explain("C23", "For hierarchies of identities (chains, several bases, diamonds, every order of declaration, over modules and submodules, with prefixes that differ from importer to importer or that name different modules in different places, with names shared by identities of several modules, by type definitions and by built-in types), the identityrefs of the emitted code are assigned every name of every identity under every prefix there is, and any other text; what is accepted and which module is reported for it is compared with the derivation computed from the statements.")

SITE = PB + "build_identities"
ST = IDH + "IdentityStore.build_store_from_definitions"
EMIT = PB + "build_elemtype"


class World(object):
    """Modules given as (name, prefix, {prefix: imported module}, {identity: bases}, *more statements)."""

    def __init__(self, *mods, **kw):
        self.mods = {}
        self.subs = kw.get("subs", {})  # submodule -> module
        self.order = [m[0] for m in mods]
        for m in mods:
            self.mods[m[0]] = m

    def main(self, m):
        return self.subs.get(m, m)

    def look(self, m, text):
        if ":" in text:
            p, n = text.split(":")
            name, prefix, imports = self.mods[m][:3]
            if p == prefix:
                return self.main(m), n
            return imports[p], n
        return self.main(m), text

    def ids(self):
        for m in self.order:
            for n, bases in self.mods[m][3].items():
                yield (self.main(m), n), [self.look(m, b) for b in bases]

    def derived(self, base):
        out, more = set(), True
        while more:
            new = {i for i, bs in self.ids() if any(b == base or b in out for b in bs)} - out
            more = bool(new)
            out |= new
        return out

    def prefixes(self, m):
        return {m} | {self.mods[x][1] for x in self.order if self.main(x) == m} | {p for x in self.order for p, i in self.mods[x][2].items() if i == m}

    def accepted(self, *bases):
        ok = set.intersection(*[self.derived(b) for b in bases])
        return {n for m, n in ok} | {"%s:%s" % (p, n) for m, n in ok for p in self.prefixes(m)}

    def texts(self):
        names = sorted({n for (m, n), b in self.ids()}) + ["zz"]
        ps = sorted(set().union(*[self.prefixes(self.main(m)) for m in self.order])) + ["qq"]
        return names + ["%s:%s" % (p, n) for p in ps for n in names]

    def skel(self):
        out = []
        for m in self.order:
            name, prefix, imports, ids = self.mods[m][:4]
            body = [S("include", s) for s, w in self.subs.items() if w == name] + [S("import", i, S("prefix", p)) for p, i in imports.items()] + [S("identity", n, *[S("base", b) for b in bases]) for n, bases in ids.items()] + list(self.mods[m][4:])
            out.append(M(name, *body, prefix=prefix, keyword="submodule", belongs_to=self.subs[name]) if name in self.subs else M(name, *body, prefix=prefix))
        return out


def idr(*bases):
    return typ("identityref", *[S("base", b) for b in bases])


def attempt(ctx, lab, inst, world, leaves, only=None, site=SITE):
    """leaves: (name in the module that is last of only, [bases])"""
    only = only or world.order[-1:]
    texts = world.texts()
    cls = only[-1].replace("-", "_")
    drv = ['''
def given(m, n, texts):
    out = []
    for t in texts:
        try:
            getattr(m, "_set_" + n)(t)
            if str(getattr(m, n)) == t:
                out.append(t)
            else:
                out.append("altered " + t)
        except ValueError:
            pass
    return out
''']
    for n, bases in leaves:
        drv.append("def t_%s():\n    return given(%s(), %r, %r)\n" % (n, cls, n, texts))
        drv.append("def any_%s(v):\n    m = %s()\n    m._set_%s(v)\n    return str(m.%s)\n" % (n, cls, n, n))
    with ctx.instance(inst, site):
        g = lab.bind("\n".join(drv), *world.skel(), only=only)
        for n, bases in leaves:
            ok = world.accepted(*[world.look(only[-1], b) if isinstance(b, str) else b for b in bases])
            want = [t for t in texts if t in ok]

            def judge(r, rep, want=want):
                if isinstance(r, Raised):
                    return None if r.name is None else False
                if not isinstance(r, list) or not all(isinstance(x, str) for x in r):
                    return None
                return sorted(r) == sorted(want)

            run(ctx, lab, g, "%s/%s" % (inst, n), "t_" + n, {}, judge, site=site, what=" (to be accepted: %s)" % ", ".join(want))
            run(ctx, lab, g, "%s/%s any text" % (inst, n), "any_" + n, {"v": "str"}, accepts(lambda v, ok=ok: v in ok, lambda v: v), vals(*(texts[:3] + want[:2] + ["", " " + (want[0] if want else "x"), "x:y:z", "5", "zz:"])), site=site)


def fam(ids, *bases):
    """One module with the identities, and a leaf for each base."""
    return World(("mod", "m", {}, ids, *[leaf("l%d" % i, idr(b)) for i, b in enumerate(bases)])), [("l%d" % i, [b]) for i, b in enumerate(bases)]


@rule("C23", "hierarchies", 20, limit=200)
def hierarchies(ctx):
    lab = ctx.lab()
    for inst, ids, bases in [
        ("chain", {"a": [], "b": ["a"], "c": ["b"], "d": ["c"]}, "abc"),
        ("star", {"a": [], "b": ["a"], "c": ["a"], "d": ["a"]}, "ab"),
        ("several bases", {"a": [], "b": [], "c": ["a", "b"], "d": ["c"], "e": ["b"]}, "abc"),
        ("diamond", {"a": [], "b": ["a"], "c": ["a"], "d": ["b", "c"], "e": ["d"]}, "abcd"),
        ("forest", {"a": [], "b": ["a"], "x": [], "y": ["x"], "z": ["y", "b"]}, "axby"),
        ("own prefix", {"a": [], "b": ["m:a"], "c": ["m:b", "a"], "d": ["m:c"]}, ["m:a", "b", "m:c"]),
        ("punctuation", {"a-b": [], "a.b": ["a-b"], "a_b": ["a.b"], "A-B": ["a-b"]}, ["a-b", "a.b"]),
        ("leaf only", {"a": []}, "a"),
    ]:
        w, l = fam(ids, *bases)
        attempt(ctx, lab, inst, w, l)


@rule("C23", "orders", 24, limit=200)
def orders(ctx):
    lab = ctx.lab()
    ids = {"a": [], "b": ["a"], "c": ["b"], "d": ["a", "c"]}
    for p in itertools.permutations(ids):
        w, l = fam({k: ids[k] for k in p}, "a", "b", "c")
        attempt(ctx, lab, "".join(p), w, l, site=ST)


@rule("C23", "modules", 30, limit=200)
def modules(ctx):
    lab = ctx.lab()
    A = ("alpha", "a", {}, {"ba": [], "d1": ["ba"]})
    chain = lambda *l: World(A, ("beta", "b", {"a": "alpha"}, {"d2": ["a:ba"], "d3": ["d2"], "x": []}), ("gamma", "g", {"a": "alpha", "b": "beta"}, {"d4": ["b:d3"], "d5": ["a:d1"]}, *l))
    L = [leaf("p", idr("a:ba")), leaf("q", idr("b:d2")), leaf("r", idr("b:d3")), leaf("s", idr("a:d1")), leaf("u", idr("b:x")), leaf("v", idr("d4"))]
    P_ = [("p", ["a:ba"]), ("q", ["b:d2"]), ("r", ["b:d3"]), ("s", ["a:d1"]), ("u", ["b:x"]), ("v", ["d4"])]
    attempt(ctx, lab, "three modules", chain(*L), P_)
    # the module with the base is the one generated, those that derive are given too
    w = World(("alpha", "a", {}, {"ba": [], "d1": ["ba"]}, leaf("p", idr("ba")), leaf("q", idr("d1"))), ("beta", "b", {"z": "alpha"}, {"d2": ["z:ba"], "d3": ["d2", "z:d1"]}))
    attempt(ctx, lab, "derived elsewhere", w, [("p", ["ba"]), ("q", ["d1"])], only=["beta", "alpha"])
    attempt(ctx, lab, "derived elsewhere", w, [("p", ["ba"]), ("q", ["d1"])], only=["alpha", "beta", "alpha"][1:])
    # every importer chooses its own prefix
    w = World(A, ("beta", "b", {"z": "alpha"}, {"d2": ["z:ba"]}), ("gamma", "g", {"y": "alpha", "x": "beta"}, {"d4": ["x:d2"]}, leaf("p", idr("y:ba")), leaf("q", idr("x:d2"))))
    attempt(ctx, lab, "prefix of the importer", w, [("p", ["y:ba"]), ("q", ["x:d2"])])
    # imports of imports
    w = World(A, ("beta", "b", {"a": "alpha"}, {"d2": ["a:ba"]}), ("gamma", "g", {"b": "beta"}, {"d4": ["b:d2"]}, leaf("p", idr("b:d2"))))
    attempt(ctx, lab, "import of an import", w, [("p", ["b:d2"])])
    for inst, mods in (("imported twice", ("alpha", "gamma")), ("given in reverse", ("gamma", "alpha"))):
        w = World(A, ("gamma", "g", {"a": "alpha"}, {"d4": ["a:d1"]}, leaf("p", idr("a:ba"))))
        with ctx.instance(inst, SITE):
            attempt(ctx, lab, inst, w, [("p", ["a:ba"])], only=[m for m in mods if m != "gamma"] + ["gamma"])


@rule("C23", "names-shared", 20, limit=200)
def shared(ctx):
    lab = ctx.lab()
    two = lambda *l: World(("alpha", "a", {}, {"base": [], "d": ["base"], "only-a": ["base"]}), ("mod", "m", {"a": "alpha"}, {"base": [], "d": ["base"], "only-m": ["base"]}, *l))
    attempt(ctx, lab, "bases of one name", two(leaf("own", idr("base")), leaf("pre", idr("m:base")), leaf("other", idr("a:base"))), [("own", ["base"]), ("pre", ["m:base"]), ("other", ["a:base"])])
    w = World(("alpha", "a", {}, {"base": [], "d": ["base"]}), ("mod", "m", {"a": "alpha"}, {"base": ["a:base"], "e": ["base"]}, leaf("own", idr("base")), leaf("other", idr("a:base"))))
    attempt(ctx, lab, "derived has the name of its base", w, [("own", ["base"]), ("other", ["a:base"])])
    w = World(("alpha", "a", {}, {"base": [], "d": ["base"]}, leaf("own", idr("base"))), ("mod", "m", {"a": "alpha"}, {"d": [], "e": ["d"]}, leaf("own", idr("d")), leaf("other", idr("a:d"))))
    attempt(ctx, lab, "base has the name of a derived one", w, [("own", ["d"]), ("other", ["a:d"])])
    # nor has the name of an identity anything to do with those of modules
    for other in ("base-types", "base", "d", "my-base", "d-x", "m"):
        if other == "mod":
            continue
        w = World((other, "a", {}, {"base": [], "d": ["base"], "only-a": ["base"]}), ("mod", "b", {"a": other}, {"base": [], "d": ["base"], "only-m": ["base"]}, leaf("own", idr("base")), leaf("other", idr("a:base"))))
        attempt(ctx, lab, "beside a module named " + other, w, [("own", ["base"]), ("other", ["a:base"])])
    # identities, types and nodes have names of their own
    for n in ("string", "uint8", "boolean", "enumeration", "leafref", "union", "container", "binary", "decimal64"):
        w = World(("mod", "m", {}, {n: [], "d": [n]}, leaf("l", idr(n)), leaf("plain", "string"), leaf("num", "uint8")))
        attempt(ctx, lab, "named " + n, w, [("l", [n])])
        with ctx.instance("leaves beside " + n, SITE):
            g = lab.bind("def t(v):\n    m = mod()\n    m.plain = v\n    m.num = 7\n    return [str(m.plain), int(m.num)]\n", *w.skel())
            run(ctx, lab, g, "leaves beside " + n, "t", {"v": "str"}, lambda r, rep: isinstance(r, list) and same(r, [rep["v"], 7]), vals("a", "d"), site=SITE)
    for inst, td in (("typedef of the name of an identity", "base"), ("typedef of the name of a derived identity", "d")):
        w = World(("mod", "m", {}, {"base": [], "d": ["base"]}, S("typedef", td, typ("uint8")), S("typedef", "t2", typ(td)), leaf("l", idr("base")), leaf("n", td), leaf("n2", "t2")))
        attempt(ctx, lab, inst, w, [("l", ["base"])])
        with ctx.instance(inst + " is its type", SITE):
            g = lab.bind("def t(v):\n    m = mod()\n    m.n = v\n    m.n2 = v\n    return [int(m.n), int(m.n2)]\n", *w.skel())
            run(ctx, lab, g, inst + " is its type", "t", {"v": "int"}, accepts(lambda v: 0 <= v <= 255, lambda v: [v, v]), vals(0, 5, 255, 256, -1), site=SITE)


@rule("C23", "prefixes", 16, limit=200)
def prefixes(ctx):
    lab = ctx.lab()
    # modules that chose the same prefix for themselves
    w = World(("alpha", "x", {}, {"base": [], "d": ["base"]}), ("beta", "x", {}, {"base": [], "e": ["base"]}), ("mod", "m", {"a": "alpha", "b": "beta"}, {"f": ["a:base"], "g": ["b:base"]}, leaf("p", idr("a:base")), leaf("q", idr("b:base"))))
    attempt(ctx, lab, "two modules of one prefix", w, [("p", ["a:base"]), ("q", ["b:base"])], site=ST)
    w = World(("alpha", "m", {}, {"base": [], "d": ["base"]}), ("mod", "m", {"a": "alpha"}, {"base": [], "e": ["base"], "f": ["a:base"]}, leaf("p", idr("a:base")), leaf("q", idr("base")), leaf("r", idr("m:base"))))
    attempt(ctx, lab, "prefix of the importer and of the imported", w, [("p", ["a:base"]), ("q", ["base"]), ("r", ["m:base"])], site=ST)
    # the prefix of an import is that of another module
    w = World(("alpha", "a", {}, {"base": [], "d": ["base"]}), ("beta", "b", {}, {"base": [], "e": ["base"]}), ("mod", "m", {"b": "alpha", "a": "beta"}, {"f": ["a:base"], "g": ["b:base"]}, leaf("p", idr("a:base")), leaf("q", idr("b:base"))))
    attempt(ctx, lab, "prefixes swapped", w, [("p", ["a:base"]), ("q", ["b:base"])], site=ST)
    w = World(("alpha", "a", {}, {"base": [], "d": ["base"]}), ("beta", "b", {}, {"base": [], "e": ["base"]}), ("other", "o", {"z": "alpha"}, {"o1": ["z:base"]}), ("mod", "m", {"z": "beta", "o": "other"}, {"f": ["z:base"]}, leaf("p", idr("z:base"))))
    attempt(ctx, lab, "one prefix for two modules in two places", w, [("p", ["z:base"])], only=["other", "mod"], site=ST)
    w = World(("alpha", "beta", {}, {"base": [], "d": ["base"]}), ("beta", "b", {}, {"base": [], "e": ["base"]}), ("mod", "m", {"a": "alpha", "b": "beta"}, {}, leaf("p", idr("a:base")), leaf("q", idr("b:base"))))
    attempt(ctx, lab, "prefix that is the name of a module", w, [("p", ["a:base"]), ("q", ["b:base"])], site=ST)


@rule("C23", "submodules", 12, limit=200)
def submodules(ctx):
    lab = ctx.lab()
    L = [leaf("p", idr("base")), leaf("q", idr("b1"))]
    P_ = [("p", ["base"]), ("q", ["b1"])]
    w = World(("mod", "m", {}, {"d1": ["base"], "b1": [], "d3": ["d2"]}, *L), ("sub", "m", {}, {"base": [], "d2": ["d1", "b1"], "d4": ["m:d2"]}), subs={"sub": "mod"})
    attempt(ctx, lab, "in a submodule", w, P_, only=["mod"], site=ST)
    w = World(("mod", "m", {}, {"d1": ["base"], "b1": []}, *L), ("sub", "s", {}, {"base": [], "d2": ["s:d1", "b1"]}), subs={"sub": "mod"})
    attempt(ctx, lab, "submodule with a prefix of its own", w, P_, only=["mod"], site=ST)
    w = World(("alpha", "a", {}, {"base": [], "x": ["base"]}), ("mod", "m", {}, {"b1": [], "y": ["z1"]}, leaf("q", idr("b1"))), ("sub", "m", {"q": "alpha"}, {"z1": ["q:base", "b1"], "z2": ["z1"]}), subs={"sub": "mod"})
    attempt(ctx, lab, "imports of a submodule", w, [("q", ["b1"])], only=["mod"], site=ST)
    w = World(("mod", "m", {}, {"base": [], "d1": ["base"]}), ("sub", "m", {}, {"e1": ["d1"], "e2": ["base"]}), ("user", "u", {"x": "mod"}, {"f": ["x:e1"]}, leaf("p", idr("x:base")), leaf("q", idr("x:e1"))), subs={"sub": "mod"})
    attempt(ctx, lab, "submodule of an import", w, [("p", ["x:base"]), ("q", ["x:e1"])], only=["user"], site=ST)


@rule("C23", "uses", 20, limit=200)
def uses(ctx):
    lab = ctx.lab()
    IDS = {"base": [], "d": ["base"], "e": ["d"], "other": [], "o": ["other"], "both": ["base", "other"]}
    td = [S("typedef", "t1", idr("base")), S("typedef", "t2", typ("t1"))]
    w = World(("mod", "m", {}, IDS, *td, leaf("own", "t1"), leaf("own2", "t2")))
    attempt(ctx, lab, "typedefs", w, [("own", ["base"]), ("own2", ["base"])], site=EMIT)
    w = World(("mod", "m", {}, IDS, leaf("two", idr("base", "other"))))
    attempt(ctx, lab, "of several bases", w, [("two", ["base", "other"])], site=EMIT)
    w = World(("alpha", "a", {}, IDS, *td), ("mod", "m", {"a": "alpha"}, {"base": [], "z": ["a:base"], "y": ["base"]}, S("typedef", "t3", typ("a:t2")), leaf("far", "a:t1"), leaf("far2", "a:t2"), leaf("far3", "t3"), leaf("near", idr("base"))))
    B = [(("alpha", "base"))]
    attempt(ctx, lab, "typedefs of another module", w, [("far", B), ("far2", B), ("far3", B), ("near", ["base"])], site=EMIT)
    # in unions, leaf-lists, keys and containers
    w = World(("mod", "m", {}, IDS, S("typedef", "t1", idr("base"))))
    texts = w.texts()
    ok = w.accepted(("mod", "base"))
    nodes = [leaf("un", typ("union", typ("uint8"), idr("base"))), leaf("unt", typ("union", typ("t1"), typ("boolean"))), S("leaf-list", "ll", idr("base")), S("leaf-list", "llt", typ("t1")), S("leaf-list", "llu", typ("union", typ("uint8"), idr("base"))), S("list", "li", S("key", "k"), leaf("k", idr("base")), leaf("v", "t1")), S("container", "co", None, leaf("x", idr("base")))[:2] + ((leaf("x", idr("base")),), {})]
    w2 = World(w.mods["mod"] + tuple(nodes))
    HOW = {"un": "m.un = t", "unt": "m.unt = t", "ll": "m.ll.append(t)", "llt": "m.llt.append(t)", "llu": "m.llu.append(t)", "li": "m.li.add(t)", "v": "m.li.add('d').v = t", "co": "m.co.x = t"}
    drv = []
    for n, s in HOW.items():
        drv.append("def t_%s():\n    out = []\n    for t in %r:\n        m = mod()\n        try:\n            %s\n            out.append(t)\n        except (ValueError, KeyError):\n            pass\n    return out\n" % (n, texts, s))
    with ctx.instance("in other places", EMIT):
        g = lab.bind("\n".join(drv), *w2.skel())
        for n in HOW:
            run(ctx, lab, g, "in " + n, "t_" + n, {}, lambda r, rep: strings(r, [t for t in texts if t in ok or (n == "unt" and t in ("true", "false"))]), site=EMIT)


def strings(r, want):
    if isinstance(r, Raised):
        return None if r.name is None else False
    if not isinstance(r, list) or not all(isinstance(x, str) for x in r):
        return None
    return sorted(r) == sorted(want)
