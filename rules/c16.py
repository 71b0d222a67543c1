"""C16: the path registry mirrors the data tree."""

from .common import *

explain("C16", "Drivers that create, assign, reset, replace and remove nodes of every kind with a path helper, and drivers that use the registry's own interface, are interpreted abstractly through emitted code, library and path helper (with a model of the element tree and its XPath subset); checked is that every path gives the object the tree holds and nothing else, and each documented refusal.")

XH = {"use_xpathhelper": True}
HEAD = "import pyangbind.lib.xpathhelper as xh\n"
IDS = [S("identity", "idb"), S("identity", "idd", S("base", "idb"))]
# name -> (type, first value, second value, refused value)
LEAFS = {
    "string": ("string", "'x'", "'y'", None),
    "int8": ("int8", "1", "2", "300"),
    "uint64": ("uint64", "1", "2", "-1"),
    "ranged": (typ("int32", S("range", "1..5")), "1", "2", "9"),
    "pattern": (typ("string", S("pattern", "a+")), "'a'", "'aa'", "'b'"),
    "boolean": ("boolean", "True", "False", "'x'"),
    "empty": ("empty", "True", "False", "'x'"),
    "decimal64": (typ("decimal64", S("fraction-digits", "2")), "'1.5'", "'2.5'", "'x'"),
    "enumeration": (typ("enumeration", S("enum", "A"), S("enum", "B")), "'A'", "'B'", "'C'"),
    "identityref": (typ("identityref", S("base", "idb")), "'idd'", "'m:idd'", "'x'"),
    "union": (typ("union", typ("uint8"), typ("enumeration", S("enum", "A"))), "1", "'A'", "'x'"),
    "bits": (typ("bits", S("bit", "p", S("position", "0")), S("bit", "q", S("position", "1"))), "'p'", "'q'", "'x'"),
    "binary": ("binary", "'YQ=='", "'YWI='", None),
    "default": (("leaf-default",), "'x'", "'y'", None),
}
ONE = '''
def new_{i}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    o = m.c._get_{p}()
    return o._path(), [x is o for x in h.get(o._path())], [x is o for x in h.get("/c/{y}")], [x is o for x in h.get("/x:c/m:{y}")]
def set_{i}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.{p} = {a}
    o = m.c._get_{p}()
    r = [x is o for x in h.get("/c/{y}")]
    m.c.{p} = {b}
    q = m.c._get_{p}()
    return r, [x is q for x in h.get("/c/{y}")], q is o, [x is m.c for x in h.get("/c")], len(h.get("/c/*"))
def same_{i}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.{p} = {a}
    m.c.{p} = {a}
    o = m.c._get_{p}()
    return [x is o for x in h.get("/c/{y}")], [x._changed() for x in h.get("/c/{y}")]
def uns_{i}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.{p} = {a}
    m.c._unset_{p}()
    o = m.c._get_{p}()
    return [x is o for x in h.get("/c/{y}")], [x._changed() for x in h.get("/c/{y}")], len(h.get("/c/*"))
'''
BADSET = '''
def bad_{i}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.{p} = {a}
    o = m.c._get_{p}()
    r = False
    try:
        m.c.{p} = {c}
    except ValueError:
        r = True
    return r, [x is o for x in h.get("/c/{y}")], m.c._get_{p}() is o
'''


@rule("C16", "leaves", minimum=40)
def leaves(ctx):
    lab = ctx.lab()
    src, todo, kids = HEAD, [], []
    names = list(LEAFS)
    for i, nm in enumerate(names):
        t, a, b, c = LEAFS[nm]
        y = "l%d" % i if i % 3 else "l-%d" % i
        p = pyname(y)
        kids.append(leaf(y, "string", S("default", "x")) if t == ("leaf-default",) else leaf(y, t))
        src += ONE.format(i=i, p=p, y=y, a=a, b=b)
        n = len(names)
        todo += [
            (nm + " leaf: created", "new_%d" % i, (["c", y], [True], [True], [True])),
            (nm + " leaf: assigned twice", "set_%d" % i, ([True], [True], False, [True], n)),
            (nm + " leaf: assigned the same twice", "same_%d" % i, ([True], [True])),
            (nm + " leaf: reset", "uns_%d" % i, ([True], [False], n)),
        ]
        if c:
            src += BADSET.format(i=i, p=p, y=y, a=a, c=c)
            todo.append((nm + " leaf: refused value", "bad_%d" % i, (True, [True], True)))
    g = lab.bind(src, M("mod", *(IDS + [S("container", "c", *kids)]), prefix="m"), **XH)
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(XP + "YANGPathHelper.register"))


TREE = HEAD + '''
def ok(h, o, n=1):
    g = h.get(o._path())
    return len(g) == n and g[0] is o
def everything():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e = m.c.d.l.add("k1")
    f = e.e.n.add("p q")
    return [ok(h, o) for o in (m.c, m.c.a, m.c.d, m.c.d.a, m.c.ll, e, e.k, e.v, e.e, e.e.w, f, f.x, f.y, m.top)], f._path(), m._path(), m.c.d.l._path()
def leaf_list():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.ll = ["a", "b"]
    r = ok(h, m.c.ll)
    m.c.ll.append("d")
    m.c.ll.remove("a")
    s = ok(h, m.c.ll)
    m.c._unset_ll()
    return r, s, ok(h, m.c.ll), len(h.get("/c/ll"))
def container_reset():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.a = "1"
    m.c.d.l.add("k1")
    old = m.c
    m._unset_c()
    return old is m.c, [ok(h, o) for o in (m.c, m.c.a, m.c.d, m.c.d.a, m.c.ll, m.top)], len(h.get("/c/d/l")), len(h.get("/c/d/l[k='k1']/e")), len(h.get("/c/a"))
def container_assigned():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    o = mod()
    o.c.a = "1"
    o.c.d.a = "2"
    m.c = o.c
    return m.c is o.c, m.c.a == "1", m.c.d.a == "2", [ok(h, x) for x in (m.c, m.c.a, m.c.d, m.c.d.a, m.c.ll)]
def list_assigned():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.d.l.add("old").e.n.add("x y")
    o = mod()
    o.c.d.l.add("k1").e.n.add("x y")
    o.c.d.l.add("k2")
    m.c.d.l = o.c.d.l
    e = m.c.d.l["k1"]
    n = e.e.n["x y"]
    return list(m.c.d.l), [ok(h, x) for x in (e, e.k, e.v, e.e, n, m.c.d.l["k2"])], [len(h.get(p)) for p in ("/c/d/l", "/c/d/l[k='old']", "/c/d/l[k='k2']", "/c/d/l/e/n")]
def lists_in_container():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.d.l.add("old").e.n.add("x y")
    o = mod()
    o.c.d.l.add("k1").e.n.add("x y")
    m.c = o.c
    e = m.c.d.l["k1"]
    n = e.e.n["x y"]
    return list(m.c.d.l), [ok(h, x) for x in (m.c.d, e, e.k, e.v, e.e, n)], [len(h.get(p)) for p in ("/c/d/l", "/c/d/l[k='old']", "/c/d/l/e/n")]
def list_refused():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e = m.c.d.l.add("k1")
    r = []
    for v in (5, "x", {"k2": 1}, ["k2"]):
        try:
            m.c.d.l = v
            r.append(True)
        except (ValueError, TypeError):
            r.append(False)
    return r, list(m.c.d.l), m.c.d.l["k1"] is e, [ok(h, x) for x in (e, e.k, e.e)]
def list_reset():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e = m.c.d.l.add("k1")
    e.e.n.add("x y")
    p, q = e._path(), e.v._path()
    m.c.d._unset_l()
    r = len(h.get(p)), len(h.get(q)), len(h.get("/c/d/l")), len(h.get("/c/d/l/e/n"))
    g = m.c.d.l.add("k1")
    return r, ok(h, g), ok(h, g.v), len(h.get("/c/d/l/e/n"))
def entry_replaced():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e = m.c.d.l.add("k1")
    e.e.n.add("x y")
    m.c.d.l["k1"] = m.c.d.l._new_item()
    g = m.c.d.l["k1"]
    return g is e, [ok(h, o) for o in (g, g.k, g.v, g.e, g.e.w)], len(h.get("/c/d/l")), len(g.e.n) == len(h.get("/c/d/l/e/n"))
def entries_apart():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a, b = m.c.d.l.add("a"), m.c.d.l.add("ab")
    x, y = a.e.n.add("1 2"), b.e.n.add("1 2")
    z = b.e.n.add("2 1")
    a.v = "p"
    b.v = "q"
    return [ok(h, o) for o in (a, b, a.v, b.v, x, y, z, x.x, y.x, z.y)], len(h.get("/c/d/l")), len(h.get("/c/d/l/e/n")), len(h.get("/c/d/l[k='ab']/e/n")), len(h.get("/c/d/l/e/n[x='1']")), [o == "q" for o in h.get("/c/d/l[k='ab']/v")]
def choice():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.one = "1"
    m.lst.add("k")
    r = ok(h, m.one), m.one._changed(), len(h.get("/lst"))
    m.one = "2"
    return r, ok(h, m.one), len(m.lst), len(h.get("/lst")), len(h.get("/lst[k='k']/v"))
def choice_container():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.cc.z = "1"
    o = m.cc
    m.one = "1"
    return o is m.cc, ok(h, m.cc), ok(h, m.cc.z), m.cc.z._changed(), len(h.get("/cc/z"))
def two_modules():
    h = xh.YANGPathHelper()
    m, n = mod(path_helper=h), mod2(path_helper=h)
    return [ok(h, o) for o in (m.c, m.top, n.other, n.other.a, n.t2)], [type(o).__name__ for o in h.get("/")], len(h.get("/*"))
def two_helpers():
    h, i = xh.YANGPathHelper(), xh.YANGPathHelper()
    m, n = mod(path_helper=h), mod(path_helper=i)
    m.c.d.l.add("a")
    n.c.a = "2"
    return ok(h, m.c), ok(i, n.c), ok(h, m.c.a), ok(i, n.c.a), len(i.get("/c/d/l")), len(h.get("/c/d/l"))
def no_helper():
    h = xh.YANGPathHelper()
    m = mod()
    m.c.d.l.add("a")
    m.c.a = "1"
    return len(h.get("/c")), m.c.a._path()
def new_item_unregistered():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.d.l.add("a")
    o = m.c.d.l._new_item()
    o.v = "x"
    return len(h.get("/c/d/l")), len(h.get("/v")), len(h.get("/*"))
def top_level_list():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e, f = m.tl.add("a"), m.tl.add("b")
    r = ok(h, e), ok(h, f), len(h.get("/tl"))
    m.tl.delete("a")
    return r, ok(h, f), len(h.get("/tl[k='a']")), len(h.get("/tl"))
def by_keyword():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e = m.c.d.l.add("a")
    f = e.e.n.add(y="2", x="1")
    return ok(h, f), len(h.get("/c/d/l[k='a']/e/n[x='1' and y='2']")), len(h.get("/c/d/l[k='a']/e/n[y='2'][x='1']")), len(h.get("/c/d/l[k='a']/e/n[x='2']")), len(h.get("/c/d/l[@k='a']/e/n[@x='1' and @y='2']")), len(h.get("/c/d/l[m:k = 'a']/m:e"))
def unkeyed():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a = m.u.add()
    b = m.u.add()
    m.u[a]._set_v("1")
    m.u[b]._set_v("2")
    return [ok(h, o) for o in (m.u[a], m.u[b], m.u[a].v, m.u[b].v)], len(h.get("/u")), [o for o in h.get("/u/v")] == ["1", "2"]
def unkeyed_removed():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a, b, c = m.u.add(), m.u.add(), m.u.add()
    m.u[b]._set_v("2")
    r = [len(h.get("/u"))]
    m.u.delete(a)
    r.append(len(h.get("/u")))
    m.u.delete(b)
    r.append(len(h.get("/u")))
    return r, len(h.get("/u/v")), ok(h, m.u[c]), ok(h, m.u[c].v)
def unset_entry():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e = m.c.d.l.add("a")
    e.v = "1"
    e._unset_v()
    f = e.e.n.add(y="2", x="1")
    e._mchanged = False
    f._mchanged = False
    e.e.n.delete("1 2")
    r = len(h.get("/c/d/l/e/n"))
    m.c.d.l.delete("a")
    return r, len(h.get("/c/d/l")), len(h.get("/c/d/l/v"))
def rejected_entry():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    r = False
    try:
        m.il.add(300)
    except KeyError:
        r = True
    m.il.add(5)
    return r, len(m.il), [o is m.il[5] for o in h.get("/il[k='5']")]
def load_leaf():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c._set_a("1", load=True)
    return ok(h, m.c.a), m.c.a
def root():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    r = h.get_unique("/")
    m.c.a = "z"
    return r is h.get("")[0], r._get_c() is m.c, getattr(r, "c") is m.c, [x for x in r._pyangbind_elements], r.c.a
def root_replaced():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m._unset_c()
    m.top = "x"
    r = h.get_unique("/")
    return r._get_c() is m.c, r.c is m.c, r._get_top() is m.top, len([x for x in r._pyangbind_elements if x == "c"])
'''
TW = {
    "everything": ([True] * 14, ["c", "d", "l[k='k1']", "e", "n[x='p' y='q']"], [], ["c", "d", "l"]),
    "leaf_list": (True, True, True, 1),
    "container_reset": (False, [True] * 6, 0, 0, 1),
    "container_assigned": (False, True, True, [True] * 5),
    "list_assigned": (["k1", "k2"], [True] * 6, [2, 0, 1, 1]),
    "lists_in_container": (["k1"], [True] * 6, [1, 0, 1]),
    "list_refused": ([False] * 4, ["k1"], True, [True] * 3),
    "list_reset": ((0, 0, 0, 0), True, True, 0),
    "entry_replaced": (False, [True] * 5, 1, True),
    "entries_apart": ([True] * 10, 2, 3, 2, 2, [True]),
    "choice": ((True, False, 1), True, 0, 0, 0),
    "choice_container": (False, True, True, False, 1),
    "two_modules": ([True] * 5, ["FakeRoot"], ANY),
    "two_helpers": (True, True, True, True, 0, 1),
    "no_helper": (0, ["c", "a"]),
    "new_item_unregistered": (1, 0, ANY),
    "top_level_list": ((True, True, 2), True, 0, 1),
    "by_keyword": (True, 1, 1, 0, 1, 1),
    "unkeyed": ([True] * 4, 2, True),
    "unkeyed_removed": ([3, 2, 1], 1, True, True),
    "unset_entry": (0, 0, 0),
    "rejected_entry": (True, 1, [True]),
    "load_leaf": (True, "1"),
    "root": (True, True, True, ANY, "z"),
    "root_replaced": (True, True, True, 1),
}


def tree_mods():
    n = S("list", "n", S("key", "x y"), leaf("x", "string"), leaf("y", "string"))
    l = S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), S("container", "e", leaf("w", "int8"), n))
    return (
        M("mod2", S("container", "other", leaf("a", "string")), leaf("t2", "string"), prefix="m2"),
        M(
            "mod",
            S("container", "c", leaf("a", "string", S("default", "dd")), S("container", "d", leaf("a", "string"), l), S("leaf-list", "ll", typ("string"))),
            leaf("top", "string"),
            S("list", "tl", S("key", "k"), leaf("k", "string")),
            S("list", "il", S("key", "k"), leaf("k", "int8")),
            S("list", "u", S("config", "false"), leaf("v", "string")),
            S("choice", "ch", S("case", "c1", leaf("one", "string")), S("case", "c2", S("list", "lst", S("key", "k"), leaf("k", "string"), leaf("v", "string"))), S("case", "c3", S("container", "cc", leaf("z", "string")))),
            prefix="m",
        ),
    )


@rule("C16", "tree", minimum=15)
def tree(ctx):
    lab = ctx.lab()
    g = lab.bind(TREE, *tree_mods(), only=["mod2", "mod"], **XH)
    for fn, w in TW.items():
        run(ctx, lab, g, fn.replace("_", " "), fn, {}, w, ({},), lab.site(YT + "YANGDynClass"))


API = HEAD + '''
class Thing(object):
    def __init__(self, n):
        self.n = n
    def __eq__(self, o):
        return True
def refuse(f, *args, **kw):
    try:
        f(*args, **kw)
    except xh.XPathError:
        return True
    return False
def reg_string():
    h = xh.YANGPathHelper()
    return refuse(h.register, "/a", Thing(1)), refuse(h.register, "a", Thing(1)), len(h.get("/a")), len(h.get("/*"))
def reg_relative():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    return refuse(h.register, ["..", "a"], Thing(1)), len(h.get("/*"))
def reg_orphan():
    h = xh.YANGPathHelper()
    return refuse(h.register, ["a", "b"], Thing(1)), len(h.get("/a")), len(h.get("/a/b"))
def reg_chain():
    h = xh.YANGPathHelper()
    t = [Thing(i) for i in range(4)]
    h.register(["a"], t[0])
    h.register(["a", "b"], t[1])
    h.register(["a", "b", "l[k='1']"], t[2])
    h.register(["a", "b", "l[k='1']", "v"], t[3])
    return [o.n for o in h.get("/a")], [o.n for o in h.get("/a/b")], [o.n for o in h.get("/a/b/l[k='1']")], [o.n for o in h.get("/a/b/l[k='1']/v")], len(h.get("/b")), len(h.get("/a/l[k='1']"))
def reg_again():
    h = xh.YANGPathHelper()
    s, t = Thing(1), Thing(2)
    h.register(["a"], s)
    h.register(["a"], t)
    r = [o is t for o in h.get("/a")]
    h.register(["a"], t)
    return r, [o is t for o in h.get("/a")], len(h.get("/*"))
def reg_again_deep():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    h.register(["a", "l[k='1']"], Thing(2))
    h.register(["a", "l[k='2']"], Thing(3))
    t = Thing(4)
    h.register(["a", "l[k='1']"], t)
    return [o.n for o in h.get("/a/l[k='1']")], [o.n for o in h.get("/a/l[k='2']")], [o.n for o in h.get("/a/l")], [o.n for o in h.get("/a")]
def reg_ambiguous():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    h.register(["a", "l[k='1']"], Thing(2))
    h.register(["a", "l[k='2']"], Thing(3))
    return refuse(h.register, ["a", "l"], Thing(4)), refuse(h.register, ["a", "l", "v"], Thing(5)), [o.n for o in h.get("/a/l")], len(h.get("/a/l/v"))
def unreg():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    h.register(["a", "b"], Thing(2))
    h.register(["a", "d"], Thing(3))
    h.unregister(["a", "b"])
    return len(h.get("/a/b")), [o.n for o in h.get("/a/d")], [o.n for o in h.get("/a")], refuse(h.unregister, ["a", "b"]), refuse(h.unregister, ["z"]), refuse(h.unregister, "/a"), refuse(h.unregister, ["..", "a"]), refuse(h.unregister, [".", "a"]), [o.n for o in h.get("/a")]
def unreg_keys():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    for i, k in enumerate(["1", "2", "12", "21"]):
        h.register(["a", "l[k='%s']" % k], Thing(i))
    h.unregister(["a", "l[k='2']"])
    return [o.n for o in h.get("/a/l")], len(h.get("/a/l[k='2']")), refuse(h.unregister, ["a", "l[k='2']"])
def unreg_register():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    h.register(["a", "b"], Thing(2))
    h.unregister(["a", "b"])
    h.register(["a", "b"], Thing(3))
    return [o.n for o in h.get("/a/b")]
def unreg_subtree():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    h.register(["a", "b"], Thing(2))
    h.register(["a", "b", "d"], Thing(3))
    h.unregister(["a", "b"])
    h.register(["a", "b"], Thing(4))
    return len(h.get("/a/b/d")), [o.n for o in h.get("/a/b")]
def lookups():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    h.register(["a", "l[k='1']"], Thing(2))
    h.register(["a", "l[k='2']"], Thing(3))
    r = []
    for f in (h.get_unique,):
        for p in ("/a/x", "/a/l", ["a", "x"], ["a", "l"]):
            try:
                f(p)
            except xh.YANGPathHelperException:
                r.append(1)
            try:
                f(p, exception_to_raise=KeyError)
            except KeyError:
                r.append(2)
    return r, h.get_unique("/a").n, h.get_unique(["a", "l[k='2']"]).n, h.get_unique("/a/l[k='1']").n, [o.n for o in h.get("/a/l")], h.get("/nothing"), h.get(["a", "nothing"])
def list_lookup():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.c.d.l.add("p").e.n.add("1 2")
    r = []
    for p in ("/c/d/zz", "/c/zz/l"):
        try:
            h.get_list(p)
        except xh.YANGPathHelperException:
            r.append(1)
        try:
            h.get_list(p, exception_to_raise=KeyError)
        except KeyError:
            r.append(2)
    return r, h.get_list("/c/d/l") is m.c.d.l, h.get_list(["c", "d", "l"]) is m.c.d.l, h.get_list("/c/d/l[k='p']/e/n") is m.c.d.l["p"].e.n
def relative():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a, b = m.c.d.l.add("p"), m.c.d.l.add("q")
    g = a.v._path()
    return ([o is a.k for o in h.get("../k", caller=g)], [o is a.e.w for o in h.get("../e/w", caller=g)], [o is m.c.d.a for o in h.get("../../a", caller=g)], [o is m.c.a for o in h.get("../../../m:a", caller=g)],
            [o is b.k for o in h.get("../../l[k='q']/k", caller=g)], len(h.get("../../l/k", caller=g)), len(h.get("../zz", caller=g)), [o is a.v for o in h.get(".", caller=g)], h.get_unique("../k", caller=g) is a.k)
def current():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a, b = m.c.d.l.add("p"), m.c.d.l.add("q")
    a.v = "q"
    g = a.e.w._path()
    return [o is b for o in h.get("/c/d/l[k=current()/../../v]", caller=g)], [o is b.v for o in h.get("/c/d/l[k=current()/../../v]/v", caller=g)], [o is b for o in h.get("../../../l[k=current()/../../v]", caller=g)]
def text_paths():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a, b = m.c.d.l.add("a/b"), m.c.d.l.add("a")
    f = a.e.n.add("1/2 3")
    return [o is a for o in h.get("/c/d/l[k='a/b']")], [o is a for o in h.get('/c/d/l[k="a/b"]')], [o is a.e for o in h.get("/c/d/l[k='a/b']/e")], [o is f for o in h.get("/c/d/l[k='a/b']/e/n[x='1/2'][y='3']")], [o is f for o in h.get("/c/d/l/e/n[@x='1/2' and @y='3']")]
def odd_keys():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    r = []
    for k in ["a b", "x]y", "[", "it's", "a||b", 'say "hi"', "a=b", "and", "or", "a^b", "p and q", "", "1.5", ":x", "n-d", " a", "a ", " ", "a  b", chr(9), "a/b", "/", "]", "x]/y[z", "*", "..", ".", "é", "a" + chr(10) + "b"]:
        if k == "":
            continue
        e = m.c.d.l.add(k)
        q = "'" if '"' in k else '"'
        r.append(h.get(e._path())[0] is e and h.get(e.v._path())[0] is e.v and h.get("/c/d/l[k=" + q + k + q + "]/v")[0] is e.v and len(h.get(e._path())) == 1)
    return r
def untouched():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    h.register(["a", "l[k='1' j='2']"], Thing(2))
    p, q = ["a", "l[k='1' j='2']"], ["x:a", "y:l"]
    h.get(p)
    h.get(q)
    h.get_unique(p)
    h.register(p, Thing(3))
    h.unregister(p)
    return p, q
def bad_expression():
    h = xh.YANGPathHelper()
    h.register(["a"], Thing(1))
    return refuse(h.get, "/a[k]"), refuse(h.get, ["a[=1]"])
def interface():
    h = xh.PybindXpathHelper()
    r = 0
    for f, a in ((h.register, (["a"], 1)), (h.unregister, (["a"],)), (h.get, (["a"],))):
        try:
            f(*a)
        except xh.PybindImplementationError:
            r += 1
    return r, isinstance(xh.YANGPathHelper(), xh.PybindXpathHelper)
'''
AW = {
    "reg_string": (True, True, 0, 0),
    "reg_relative": (True, 1),
    "reg_orphan": (True, 0, 0),
    "reg_chain": ([0], [1], [2], [3], 0, 0),
    "reg_again": ([True], [True], 1),
    "reg_again_deep": ([4], [3], [4, 3], [1]),
    "reg_ambiguous": (True, True, [2, 3], 0),
    "unreg": (0, [3], [1], True, True, True, True, True, [1]),
    "unreg_keys": ([0, 2, 3], 0, True),
    "unreg_register": [3],
    "unreg_subtree": (0, [4]),
    "lookups": ([1, 2] * 4, 1, 3, 2, [2, 3], [], []),
    "list_lookup": ([1, 2, 1, 2], True, True, True),
    "relative": ([True], [True], [True], [True], [True], 2, 0, [True], True),
    "current": ([True], [True], [True]),
    "text_paths": ([True], [True], [True], [True], [True]),
    "odd_keys": [True] * 28,
    "untouched": (["a", "l[k='1' j='2']"], ["x:a", "y:l"]),
    "bad_expression": (True, True),
    "interface": (3, True),
}


@rule("C16", "registry-interface", minimum=15)
def api(ctx):
    lab = ctx.lab()
    g = lab.bind(API, *tree_mods(), only=["mod2", "mod"], **XH)
    for fn, w in AW.items():
        run(ctx, lab, g, fn.replace("_", " "), fn, {}, w, ({},), lab.site(XP + "YANGPathHelper"))


RPC = HEAD + '''
def use():
    h = xh.YANGPathHelper()
    o = {cls}(path_helper=h)
    o{inp}.a = "1"
    o{inp}.c.b = "1"
    e = o{inp}.l.add("p")
    e.v = "2"
    r = len(h.get("/*"))
    o{inp}.l.delete("p")
    return r, len(h.get("/*")), o{inp}.a, o{inp}.c.b, len(o{inp}.l)
'''


@rule("C16", "nodes-outside-the-tree", minimum=2)
def outside(ctx):
    import re

    for kw, opt, inp in (("rpc", "build_rpcs", ".input"), ("notification", "build_notifications", "")):
        lab = ctx.lab()
        body = [leaf("a", "string"), S("container", "c", leaf("b", "string")), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"))]
        op = S(kw, "x", S("input", "input", *body)) if inp else S(kw, "x", *body)
        o = dict(XH)
        o[opt] = True
        txt = lab.text(M("mod", op, prefix="m"), **o)
        names = [c for c in re.findall(r"^class (\w+)\(", txt, re.M) if "_x_" in c and not ("input" in c.split("_") or "c" in c.split("_")[1:2] or "l" in c.split("_")[1:2])]
        if len(names) != 1:
            raise Undecided("classes %s" % names)
        g = lab.load(txt, RPC.format(cls=names[0], inp=inp))
        run(ctx, lab, g, kw + " registers nothing", "use", {}, (0, 0, "1", "1", 0), ({},), lab.site(PB + "get_children"))
