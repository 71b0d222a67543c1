"""C08: deleting a list entry removes that entry and its registration, nothing else."""

from .common import *

explain("C08", "Drivers that add and delete entries (by delete, by del, positionally and by keyword; one, two, three keys and none; nested lists; odd characters in keys) with and without a path helper are interpreted abstractly through emitted code, list class and path helper (with a model of the element tree); checked are the remaining entries, the registry and refusals.")

XH = {"use_xpathhelper": True}
KT = {
    "string": ("string", "'x'", "'y'", "'z'"),
    "int": ("int8", "1", "2", "3"),
    "ranged": (typ("int32", S("range", "1..9")), "1", "2", "3"),
    "enumeration": (typ("enumeration", S("enum", "A"), S("enum", "B"), S("enum", "C")), "'A'", "'B'", "'C'"),
    "union": (typ("union", typ("uint8"), typ("string")), "1", "'auto'", "'z'"),
    "leafref": (typ("leafref", S("path", "../v")), "'x'", "'y'", "'z'"),
    "string with spaces": ("string", "'a b'", "'a'", "'b'"),
    "string with a slash": ("string", "'a/b'", "'a'", "'b'"),
    "string with brackets": ("string", "'a[1]'", "'a[2]'", "'a'"),
    "string with a quote": ("string", "\"it's\"", "'its'", "'it'"),
    "similar strings": ("string", "'eth1'", "'eth10'", "'eth'"),
    "string ending in d": ("string", "'and'", "'nand'", "'a'"),
}
D = '''
def del_{i}_{h}():
    {mk}
    e, f = m.c.l{i}.add({a}), m.c.l{i}.add({b})
    e.v = "1"
    f.v = "2"
    m.c.l{i}.{how}({a})
    return len(m.c.l{i}), m.c.l{i}[{b}] is f, {a} in m.c.l{i}, f.v, m.c._changed(), m.c.other
def item_{i}_{h}():
    {mk}
    e, f = m.c.l{i}.add({a}), m.c.l{i}.add({b})
    f.v = "2"
    del m.c.l{i}[{a}]
    return len(m.c.l{i}), m.c.l{i}[{b}] is f, {a} in m.c.l{i}, f.v
def last_{i}_{h}():
    {mk}
    f, e = m.c.l{i}.add({b}), m.c.l{i}.add({a})
    m.c.l{i}.delete({a})
    return len(m.c.l{i}), m.c.l{i}[{b}] is f
def kw_{i}_{h}():
    {mk}
    e, f = m.c.l{i}.add({a}), m.c.l{i}.add({b})
    m.c.l{i}.delete(k={a})
    return len(m.c.l{i}), list(m.c.l{i}.values())[0] is f
def absent_{i}_{h}():
    {mk}
    e, f = m.c.l{i}.add({a}), m.c.l{i}.add({b})
    r = 0
    try:
        m.c.l{i}.delete({c})
    except KeyError:
        r += 1
    try:
        m.c.l{i}.delete(k={c})
    except KeyError:
        r += 1
    try:
        del m.c.l{i}[{c}]
    except KeyError:
        r += 1
    return r, len(m.c.l{i}), m.c.l{i}[{a}] is e, m.c.l{i}[{b}] is f
def again_{i}_{h}():
    {mk}
    e, f = m.c.l{i}.add({a}), m.c.l{i}.add({b})
    e.v = "1"
    m.c.l{i}.delete({a})
    g = m.c.l{i}.add({a})
    r = False
    m.c.l{i}.delete({b})
    try:
        m.c.l{i}.delete({b})
    except KeyError:
        r = True
    return r, len(m.c.l{i}), m.c.l{i}[{a}] is g, g is e, g.v == "1"
'''
REG = '''
def reg_{i}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e, f = m.c.l{i}.add({a}), m.c.l{i}.add({b})
    pe, pf, pv = e._path(), f._path(), e.v._path()
    r = [h.get(pe)[0] is e, h.get(pf)[0] is f, h.get(pv)[0] is e.v]
    {do}
    return r, len(h.get(pe)), len(h.get(pv)), [o is f for o in h.get(pf)], [o is f.v for o in h.get(f.v._path())], [o is m.c for o in h.get("/c")], [o is m.c.other for o in h.get("/c/other")], [o is f for o in h.get("/c/l{i}")]
def regabs_{i}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e, f = m.c.l{i}.add({a}), m.c.l{i}.add({b})
    try:
        m.c.l{i}.delete({c})
    except KeyError:
        pass
    return [o is e for o in h.get(e._path())], [o is f for o in h.get(f._path())], len(h.get("/c/l{i}"))
def regadd_{i}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e, f = m.c.l{i}.add({a}), m.c.l{i}.add({b})
    m.c.l{i}.delete({a})
    g = m.c.l{i}.add({a})
    return [o is g for o in h.get(g._path())], [o is g.v for o in h.get(g.v._path())], [o is f for o in h.get(f._path())], len(h.get("/c/l{i}"))
'''
HOWS = {"delete": "m.c.l{i}.delete({a})", "keyword": "m.c.l{i}.delete(k={a})", "del": "del m.c.l{i}[{a}]", "pop": "m.c.l{i}.__delitem__({a})"}


@rule("C08", "single-keys", minimum=60)
def single(ctx):
    lab = ctx.lab()
    src, todo, kids = "import pyangbind.lib.xpathhelper as xh\n", [], [leaf("other", "string", S("default", "o"))]
    site = lab.site(YT + "YANGListType.YANGList.delete")
    for i, (nm, (t, a, b, c)) in enumerate(KT.items()):
        kids.append(S("list", "l%d" % i, S("key", "k"), leaf("k", t), leaf("v", "string")))
        for h, mk in (("p", "m = mod()"), ("h", "m = mod(path_helper=xh.YANGPathHelper())")):
            if nm == "leafref" and h == "h":
                continue
            src += D.format(i=i, h=h, mk=mk, a=a, b=b, c=c, how="delete")
            w = nm + " key, " + ("no path helper" if h == "p" else "path helper") + ": "
            todo += [
                (w + "delete one of two", "del_%d_%s" % (i, h), (1, True, False, "2", True, "")),
                (w + "del item", "item_%d_%s" % (i, h), (1, True, False, "2")),
                (w + "delete the last added", "last_%d_%s" % (i, h), (1, True)),
                (w + "delete absent", "absent_%d_%s" % (i, h), (3, 2, True, True)),
                (w + "delete, add again, delete twice", "again_%d_%s" % (i, h), (True, 1, True, False, False)),
            ]
            if nm not in ("int", "ranged", "union"):
                todo.append((w + "delete by keyword", "kw_%d_%s" % (i, h), (1, True)))
    g = lab.bind(src, M("mod", S("container", "c", *kids), prefix="m"), **XH)
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), site)


@rule("C08", "registrations", minimum=30)
def registrations(ctx):
    lab = ctx.lab()
    src, todo, kids = "import pyangbind.lib.xpathhelper as xh\n", [], [leaf("other", "string", S("default", "o"))]
    site = lab.site(XP + "YANGPathHelper.unregister")
    i = 0
    for nm, (t, a, b, c) in KT.items():
        if nm == "leafref":
            continue
        for how, do in HOWS.items():
            if how == "keyword" and nm in ("int", "ranged", "union"):
                continue
            kids.append(S("list", "l%d" % i, S("key", "k"), leaf("k", t), leaf("v", "string")))
            src += REG.format(i=i, a=a, b=b, c=c, do=do.format(i=i, a=a))
            todo += [("%s key: paths after deletion (%s)" % (nm, how), "reg_%d" % i, ([True] * 3, 0, 0, [True], [True], [True], [True], [True]))]
            if how == "delete":
                todo += [
                    ("%s key: paths after deletion of an absent key" % nm, "regabs_%d" % i, ([True], [True], 2)),
                    ("%s key: paths after deletion and addition" % nm, "regadd_%d" % i, ([True], [True], [True], 2)),
                ]
            i += 1
    g = lab.bind(src, M("mod", S("container", "c", *kids), prefix="m"), **XH)
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), site)


# key statement, names, deleted, kept, absent (as keyword dicts)
MULTI = [
    ("a b", [dict(a="x", b="1"), dict(a="x", b="2"), dict(a="1", b="x")]),
    ("b a", [dict(a="x", b="1"), dict(a="1", b="x"), dict(a="x", b="2")]),
    ("in a-b", [dict(in_="x", a_b="1"), dict(in_="x", a_b="10"), dict(in_="x1", a_b="0")]),
    ("x.y class", [dict(x_y="x", class_="1"), dict(x_y="y", class_="1"), dict(x_y="z", class_="1")]),
    ("a b d", [dict(a="x", b="y", d="z"), dict(a="x", b="y", d="y"), dict(a="y", b="y", d="z")]),
]
MD = '''
def m_{i}_{j}():
    h = {h}
    m = mod({mh})
    e, f = m.l{i}.add({a}), m.l{i}.add({b})
    f.v = "2"
    n = 0
    try:
        m.l{i}.delete({c})
    except KeyError:
        n = len(m.l{i})
    {do}
    return n, len(m.l{i}), list(m.l{i}.values())[0] is f, f.v
def r_{i}_{j}():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    e, f = m.l{i}.add({a}), m.l{i}.add({b})
    pe, pf, pv = e._path(), f._path(), e.v._path()
    r = [h.get(pe)[0] is e, h.get(pf)[0] is f, h.get(pv)[0] is e.v]
    {do}
    return r, len(h.get(pe)), len(h.get(pv)), [o is f for o in h.get(pf)], [o is f.v for o in h.get(f.v._path())]
'''


@rule("C08", "several-keys", minimum=20)
def multi(ctx):
    lab = ctx.lab()
    src, todo, kids = "import pyangbind.lib.xpathhelper as xh\n", [], []
    for i, (key, ks) in enumerate(MULTI):
        names = key.split()
        kids.append(S("list", "l%d" % i, S("key", key), *([leaf(n, "string") for n in names] + [leaf("v", "string")])))
        pos = [repr(" ".join(list(k.values()) if names[0].replace("-", "_").replace(".", "_").rstrip("_") == list(k)[0].rstrip("_") else [k[n] for n in names])) for k in ks]
        kw = [", ".join("%s=%r" % x for x in k.items()) for k in ks]
        j = 0
        for how, do in (("delete", "m.l%d.delete(%s)" % (i, pos[0])), ("keyword", "m.l%d.delete(%s)" % (i, kw[0])), ("del", "del m.l%d[%s]" % (i, pos[0]))):
            for add in (pos, kw):
                for hh in ("None", "xh.YANGPathHelper()"):
                    src += MD.format(i=i, j=j, a=add[0], b=add[1], c=add[2], do=do, h=hh, mh="" if hh == "None" else "path_helper=h")
                    w = "key '%s', added %s, %s, %s" % (key, "positionally" if add is pos else "by keyword", how, "no path helper" if hh == "None" else "path helper")
                    todo.append((w, "m_%d_%d" % (i, j), (2, 1, True, "2")))
                    if hh != "None":
                        todo.append((w + ": paths", "r_%d_%d" % (i, j), ([True] * 3, 0, 0, [True], [True])))
                    j += 1
    g = lab.bind(src, M("mod", *kids, prefix="m"), **XH)
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(YT + "YANGListType.YANGList.delete"))


NEST = '''
import pyangbind.lib.xpathhelper as xh
def build(h):
    m = mod(path_helper=h) if h else mod()
    for a in ("x", "y"):
        e = m.l.add(a)
        for b in ("p", "q"):
            f = e.c.n.add(b)
            f.v = a + b
    return m
def inner():
    h = xh.YANGPathHelper()
    m = build(h)
    gone = m.l["x"].c.n["p"]._path()
    m.l["x"].c.n.delete("p")
    return (len(h.get(gone)), list(m.l), list(m.l["x"].c.n), list(m.l["y"].c.n), m.l["y"].c.n["p"].v, [o is m.l["y"].c.n["p"] for o in h.get("/l[k='y']/c/n[j='p']")],
            [o is m.l["x"].c.n["q"] for o in h.get("/l[k='x']/c/n[j='q']")], len(h.get("/l[k='x']/c/n[j='p']/v")), len(h.get("/l/c/n")))
def outer():
    h = xh.YANGPathHelper()
    m = build(h)
    m.l.delete("x")
    return len(h.get("/l[k='x']")), len(h.get("/l[k='x']/c/n")), len(h.get("/l[k='x']/c")), list(m.l), list(m.l["y"].c.n), len(h.get("/l/c/n")), [o is m.l["y"].c.n["p"] for o in h.get("/l[k='y']/c/n[j='p']")]
def outer_again():
    h = xh.YANGPathHelper()
    m = build(h)
    m.l.delete("x")
    e = m.l.add("x")
    return len(h.get("/l[k='x']/c/n")), len(e.c.n), [o is e.c for o in h.get("/l[k='x']/c")], list(m.l)
def plain():
    m = build(None)
    m.l["x"].c.n.delete("p")
    m.l["y"].c.n.delete("q")
    return list(m.l), list(m.l["x"].c.n), list(m.l["y"].c.n), m.l["x"].c.n["q"].v
def everything():
    h = xh.YANGPathHelper()
    m = build(h)
    for k in list(m.l):
        m.l.delete(k)
    return len(m.l), len(h.get("/l")), len(h.get("/l/c"))
def two_lists():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.l.add("x")
    e = m.ll.add("x")
    m.l.delete("x")
    return len(m.l), len(m.ll), [o is e for o in h.get("/ll[k='x']")], len(h.get("/l"))
def unkeyed():
    m = mod()
    a = m.u.add()
    b = m.u.add()
    m.u[b]._set_v("w")
    m.u.delete(a)
    r = False
    try:
        m.u.delete(a)
    except KeyError:
        r = True
    return r, len(m.u), m.u[b].v
def unkeyed_helper():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a = m.u.add()
    b = m.u.add()
    m.u[b]._set_v("w")
    m.u.delete(a)
    return len(m.u), m.u[b].v
def unkeyed_item():
    m = mod()
    a = m.u.add()
    b = m.u.add()
    del m.u[a]
    return list(m.u) == [b]
def sequence():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    for k in ("a", "b", "d"):
        m.l.add(k)
    m.l.delete("b")
    m.l.add("e")
    m.l.delete("a")
    m.l.add("b")
    return list(m.l), [o.k for o in h.get("/l")] == ["d", "e", "b"], [h.get(e._path())[0] is e for e in m.l.values()]
def entries_by_append():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    o = m.l._new_item()
    o._set_k("x")
    m.l.append(o)
    m.l.add("y")
    m.l.delete("x")
    return list(m.l), len(h.get("/l[k='x']")), len(h.get("/l[k='y']"))
def entries_by_item():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.l["x"] = m.l._new_item()
    m.l.add("y")
    m.l.delete("x")
    return list(m.l), len(h.get("/l[k='x']")), len(h.get("/l[k='y']"))
def replaced():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.l.add("x")
    m.l["x"] = m.l._new_item()
    e = m.l["x"]
    n = [o is e for o in h.get("/l[k='x']")]
    m.l.delete("x")
    return n, len(m.l), len(h.get("/l[k='x']"))
'''
NW = {
    "inner": (0, ["x", "y"], ["q"], ["p", "q"], "yp", [True], [True], 0, 3),
    "outer": (0, 0, 0, ["y"], ["p", "q"], 2, [True]),
    "outer_again": (0, 0, [True], ["y", "x"]),
    "plain": (["x", "y"], ["q"], ["p"], "xq"),
    "everything": (0, 0, 0),
    "two_lists": (0, 1, [True], 0),
    "unkeyed": (True, 1, "w"),
    "unkeyed_helper": (1, "w"),
    "unkeyed_item": True,
    "sequence": (["d", "e", "b"], True, [True, True, True]),
    "entries_by_append": (["y"], 0, 1),
    "entries_by_item": (["y"], 0, 1),
    "replaced": ([True], 0, 0),
}


@rule("C08", "nested-and-sequences", minimum=10)
def nested(ctx):
    lab = ctx.lab()
    g = lab.bind(
        NEST,
        M("mod", S("list", "l", S("key", "k"), leaf("k", "string"), S("container", "c", S("list", "n", S("key", "j"), leaf("j", "string"), leaf("v", "string")))), S("list", "ll", S("key", "k"), leaf("k", "string")), S("list", "u", S("config", "false"), leaf("v", "string")), prefix="m"),
        **XH
    )
    for fn, w in NW.items():
        run(ctx, lab, g, fn.replace("_", " "), fn, {}, w, ({},), lab.site(YT + "YANGListType.YANGList.__delitem__"))


KEYLESS = """
import pyangbind.lib.xpathhelper as xh
def both():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a, b = m.c.x.add(), m.c.x.add()
    e, f = m.c.x[a], m.c.x[b]
    return [o is e for o in h.get(e._path())], [o is f for o in h.get(f._path())], len(h.get("/c/x"))
def one(%s):
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    a, b = m.c.x.add(), m.c.x.add()
    e, f = m.c.x[a], m.c.x[b]
    {fill}
    {do}
    return len(m.c.x), len(h.get("/c/x")), [o is f for o in h.get("/c/x")], a in m.c.x, b in m.c.x, len(h.get(e._path())), [o is f for o in h.get(f._path())]
"""


@rule("C08", "without-a-key", minimum=6)
def keyless(ctx):
    """Entries of a list without a key, with and without anything set below them."""
    lab = ctx.lab()
    src, todo = KEYLESS[: KEYLESS.index("def one")], []
    for fill in ("pass", "e._set_v('q')", "f._set_v('q')", "e._set_v('q'); f._set_v('q')"):
        for do in ("m.c.x.delete(a)", "del m.c.x[a]"):
            src += KEYLESS[KEYLESS.index("def one") :].replace("one(%s)", "one_%d()" % len(todo)).format(fill=fill.replace("; ", "\n    "), do=do)
            todo.append(("%s, %s" % (fill, do), "one_%d" % len(todo), (1, 1, [True], False, True, 0, [True])))
    g = lab.bind(src, M("mod", S("container", "c", S("list", "x", S("config", "false"), leaf("v", "string"), i_config=False)), prefix="m"), **XH)
    site = lab.site(YT + "YANGListType.YANGList.__delitem__")
    run(ctx, lab, g, "registered apart", "both", {}, ([True], [True], 2), ({},), site)
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), site)
