"""C05: at most one case of a choice is populated at any time."""

from .common import *

explain("C05", "For choices at every level (module, container, list entry, rpc input), nested in cases and below containers, and with every kind of node as case member, drivers that populate one case and then set a node of another are interpreted abstractly through emitted code and library; checked is which nodes are populated afterwards.")

BITS = typ("bits", S("bit", "p", S("position", "0")), S("bit", "q", S("position", "1")))
# kind -> (statement, statements of a driver that populate it in object e, populated?)
KINDS = {
    "leaf": (lambda n: leaf(n, "string"), "e.{n} = 'v'", "e.{n}._changed()"),
    "read-only leaf": (lambda n: leaf(n, "string", S("config", "false")), "e._set_{n}('v')", "e.{n}._changed()"),
    "bits leaf": (lambda n: leaf(n, BITS), "e.{n}.add('p')", "e.{n}._changed()"),
    "union leaf": (lambda n: leaf(n, typ("union", typ("int8"), typ("string"))), "e.{n} = 'v'", "e.{n}._changed()"),
    "leafref leaf": (lambda n: leaf(n, typ("leafref", S("path", "../out"))), "e.{n} = 'v'", "e.{n}._changed()"),
    "leaf-list": (lambda n: S("leaf-list", n, typ("int8")), "e.{n}.append(1)", "len(e.{n}) != 0"),
    "leaf-list assigned": (lambda n: S("leaf-list", n, typ("int8")), "e.{n} = [1]", "len(e.{n}) != 0"),
    "container": (lambda n: S("container", n, leaf("in", "string")), "e.{n}.in_ = 'v'", "e.{n}.in_._changed()"),
    "container two deep": (lambda n: S("container", n, S("container", "mid", leaf("in", "string"))), "e.{n}.mid.in_ = 'v'", "e.{n}.mid.in_._changed()"),
    "list": (lambda n: S("list", n, S("key", "k"), leaf("k", "string"), leaf("v", "string")), "e.{n}.add('k1')", "len(e.{n}) != 0"),
    "list in container": (lambda n: S("container", n, S("list", "li", S("key", "k"), leaf("k", "string"))), "e.{n}.li.add('k1')", "len(e.{n}.li) != 0"),
    "list entry's leaf": (lambda n: S("list", n, S("key", "k"), leaf("k", "string"), leaf("v", "string")), "e.{n}.add('k1').v = 'x'", "len(e.{n}) != 0"),
    "list with two keys": (lambda n: S("list", n, S("key", "k j"), leaf("k", "string"), leaf("j", "string")), "e.{n}.add('k1 j1')", "len(e.{n}) != 0"),
}
PRES = {"presence container": (lambda n: S("container", n, S("presence", "x"), leaf("in", "string")), "e.{n}._set_present()", "e.{n}._present() is True")}


def pyn(s):
    return "".join(c if c.isalnum() else "_" for c in s)


def pairs(kinds, acc):
    """Drivers: populate a member of case one (kind A), then case two (kind B), and back."""
    D, todo, kids = "", [], []
    names = list(kinds)
    for i, a in enumerate(names):
        b = names[(i + 5) % len(names)]
        na, nb = "a%d" % i, "b%d" % i
        ka, pa, qa = kinds[a]
        kb, pb, qb = kinds[b]
        kids.append(S("choice", "ch%d" % i, S("case", "one", ka(na), leaf("ax%d" % i, "string")), S("case", "two", kb(nb), leaf("bx%d" % i, "string", S("default", "d")))))
        D += "def f{i}():\n    m = mod()\n    e = {acc}\n    e.out = 'o'\n    {pa}\n    e.ax{i} = 'y'\n    s0 = ({qa}, {qb})\n    {pb}\n    e.bx{i} = 'z'\n    s1 = ({qa}, {qb}, e.ax{i}, e.bx{i})\n    {pa2}\n    s2 = ({qa}, {qb}, e.ax{i}, e.bx{i}, e.bx{i}._changed(), e.out)\n    return s0, s1, s2\n".format(
            i=i, acc=acc, pa=pa.format(n=na), pb=pb.format(n=nb), qa=qa.format(n=na), qb=qb.format(n=nb), pa2=pa.format(n=na))
        # a default is kept as such: a leaf that was reset reports its default without being changed
        todo.append(("%s and %s" % (a, b), "f%d" % i, ((True, False), (False, True, "", "z"), (True, False, "", ANY, False, "o"))))
    return D, todo, kids


@rule("C05", "kinds-of-nodes", minimum=12)
def kinds(ctx):
    lab = ctx.lab()
    D, todo, kids = pairs(dict(KINDS, **PRES), "m.c")
    g = lab.bind(D, M("mod", S("container", "c", leaf("out", "string"), *kids)), generate_presence=True)
    for inst, fn, w in todo:
        run(ctx, lab, g, inst + " in a container", fn, {}, w, ({},), lab.site(YT + "YANGDynClass.YANGBaseClass._set"))


@rule("C05", "kinds-of-nodes-at-the-top", minimum=12)
def kinds_top(ctx):
    lab = ctx.lab()
    D, todo, kids = pairs(KINDS, "m")
    g = lab.bind(D, M("mod", leaf("out", "string"), *kids))
    for inst, fn, w in todo:
        run(ctx, lab, g, inst + " in a module", fn, {}, w, ({},), lab.site(YT + "YANGDynClass.YANGBaseClass._set"))


@rule("C05", "kinds-of-nodes-in-entries", minimum=12)
def kinds_entry(ctx):
    lab = ctx.lab()
    D, todo, kids = pairs(KINDS, 'm.li.add("k1")')
    g = lab.bind(D, M("mod", S("list", "li", S("key", "k"), leaf("k", "string"), leaf("out", "string"), *kids)))
    for inst, fn, w in todo:
        run(ctx, lab, g, inst + " in a list entry", fn, {}, w, ({},), lab.site(YT + "YANGDynClass.YANGBaseClass._set"))


NEST = '''
def pop(e):
    return e.a._changed(), e.b._changed(), e.x._changed(), e.y._changed(), e.z._changed(), e.k._changed(), e.inn.p._changed(), e.inn.q._changed()
def n_{n}_{p}():
    m = mod()
    e = m.c
    e.k = "k"
    e.{p} = "v"
    e.{n} = "w"
    return pop(e)
'''


@rule("C05", "nested-choices", minimum=180)
def nested(ctx):
    """choice o { case one {a, b}  case two { choice i { case x {x} case y {y, choice j {case s {z} case t {inn {p, q}}}} } } }, leaf k outside."""
    lab = ctx.lab()
    order = ["a", "b", "x", "y", "z", "k", "inn.p", "inn.q"]
    # node -> the cases it is in, outermost first
    path = {"a": [("o", "one")], "b": [("o", "one")], "x": [("o", "two"), ("i", "x")], "y": [("o", "two"), ("i", "y")],
            "z": [("o", "two"), ("i", "y"), ("j", "s")], "inn.p": [("o", "two"), ("i", "y"), ("j", "t")], "inn.q": [("o", "two"), ("i", "y"), ("j", "t")], "k": []}
    KIDS = [leaf("k", "string"), S("choice", "o",
        S("case", "one", leaf("a", "string"), leaf("b", "string")),
        S("case", "two", S("choice", "i", S("case", "x", leaf("x", "string")), S("case", "y", leaf("y", "string"),
            S("choice", "j", S("case", "s", leaf("z", "string")), S("case", "t", S("container", "inn", leaf("p", "string"), leaf("q", "string")))))))) ]
    for place, kids, e in (("", [S("container", "c", *KIDS)], "m.c"), ("at the top, ", KIDS, "m"), ("in an entry, ", [S("list", "l", S("key", "kk"), leaf("kk", "string"), *KIDS)], "m.l.add('1')")):
        D, todo = NEST.split("def n_")[0], []
        for p in order:
            for n in order:
                f = "n_%s_%s" % (pyn(n), pyn(p))
                D += "def " + f + '():\n    m = mod()\n    e = %s\n    e.k = "k"\n    e.%s = "v"\n    e.%s = "w"\n    return pop(e)\n' % (e, p, n)
                ok = set(["k", n])
                if not any(c1 == c2 and a != b for c1, a in path[n] for c2, b in path[p]):
                    ok.add(p)
                todo.append(("%s%s after %s" % (place, n, p), f, tuple(x in ok for x in order)))
        g = lab.bind(D, M("mod", *kids))
        for inst, fn, w in todo:
            run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(PB + "get_children_elements"))


LEV = '''
def pop(m):
    return m.c._changed(), m.c.d._changed(), m.c.d.p._changed(), m.c.d.q._changed(), m.c.r._changed(), m.c.d.out._changed()
def deep():
    m = mod()
    m.c.r = "v"
    m.c.d.out = "o"
    a = pop(m)
    m.c.r = "v"
    b = pop(m)
    m.c.d.p = "v"
    c = pop(m)
    m.c.d.q = "v"
    d = pop(m)
    m.c.r = "v"
    return a, b, c, d, pop(m)
def entry():
    m = mod()
    a = m.c.li.add("k1")
    b = m.c.li.add("k2")
    a.p = "v"
    b.q = "v"
    s = a.p._changed(), a.q._changed(), b.p._changed(), b.q._changed(), len(m.c.li)
    a.q = "v"
    return s, (a.p._changed(), a.q._changed(), b.p._changed(), b.q._changed(), len(m.c.li))
def entry_out():
    m = mod()
    a = m.c.li.add("k1")
    a.p = "v"
    m.c.s = "v"
    n = len(m.c.li)
    a = m.c.li.add("k1")
    a.q = "w"
    return n, m.c.s._changed(), a.q._changed()
def same_name():
    m = mod()
    m.n.a = "v"
    m.n.e.b = "w"
    return m.n.a._changed(), m.n.e.b._changed(), m.n.e.c._changed()
def same_name2():
    m = mod()
    m.n.e.c = "v"
    m.n.e.b = "w"
    m.n.e.c = "w"
    return m.n.a._changed(), m.n.e.b._changed(), m.n.e.c._changed(), m.n.e.o._changed()
def same_name3():
    m = mod()
    m.n.e.o = "v"
    m.n.e.b = "w"
    m.n.e.c = "w"
    return m.n.a._changed(), m.n.e.b._changed(), m.n.e.c._changed(), m.n.e.o._changed()
'''


@rule("C05", "choices-at-several-levels", minimum=6)
def levels(ctx):
    lab = ctx.lab()
    g = lab.bind(LEV, M("mod",
        S("container", "c",
            S("choice", "outer", S("case", "x", S("container", "d", leaf("out", "string"), S("choice", "inner", S("case", "x1", leaf("p", "string")), S("case", "x2", leaf("q", "string"))))), S("case", "y", leaf("r", "string"))),
            S("choice", "lists", S("case", "l", S("list", "li", S("key", "k"), leaf("k", "string"), S("choice", "inner", S("case", "x1", leaf("p", "string")), S("case", "x2", leaf("q", "string"))))), S("case", "y", leaf("s", "string")))),
        S("container", "n", S("choice", "same", S("case", "one", S("container", "e", leaf("o", "string"), S("choice", "same", S("case", "b", leaf("b", "string")), S("case", "c", leaf("c", "string"))))), S("case", "two", leaf("a", "string"))))))
    site = lab.site(YT + "YANGDynClass.YANGBaseClass._set")
    F, T_ = False, True
    run(ctx, lab, g, "a choice below a case's container", "deep", {}, (
        (T_, T_, F, F, F, T_), (T_, F, F, F, T_, F), (T_, T_, T_, F, F, F), (T_, T_, F, T_, F, F), (T_, F, F, F, T_, F)), ({},), site)
    run(ctx, lab, g, "each entry of a list has its own choice", "entry", {}, ((T_, F, F, T_, 2), (F, T_, F, T_, 2)), ({},), site)
    run(ctx, lab, g, "a choice between a list and a leaf", "entry_out", {}, (0, F, T_), ({},), site)
    run(ctx, lab, g, "a choice of the same name further down", "same_name", {}, (F, T_, F), ({},), site)
    run(ctx, lab, g, "cases of the choice of the same name", "same_name2", {}, (F, F, T_, F), ({},), site)
    run(ctx, lab, g, "a node beside the choice of the same name", "same_name3", {}, (F, F, T_, T_), ({},), site)


MIX = '''
def ok(v):
    m = mod()
    m.c.a = 1
    m.c.z = 2
    try:
        m.c.b = v
    except ValueError:
        pass
    return m.c.a._changed(), m.c.b._changed(), m.c.z._changed()
def unset():
    m = mod()
    m.c.a = 1
    m.c._unset_b()
    s = m.c.a._changed(), m.c.a
    m.c.b
    str(m.c.b)
    return s, (m.c.a._changed(), m.c.a)
def dflt():
    m = mod()
    m.c.d = 3
    m.c.a = 1
    return m.c.d._changed(), m.c.d._default, m.c.a
def three():
    m = mod()
    m.c.t1 = 1
    m.c.t2 = 2
    s = m.c.t1._changed(), m.c.t2._changed(), m.c.t3._changed()
    m.c.t3 = 3
    return s, (m.c.t1._changed(), m.c.t2._changed(), m.c.t3._changed())
def obj():
    m = mod()
    n = mod()
    n.c.b = 5
    m.c.a = 1
    m._set_c(n.c)
    return m.c.a._changed(), m.c.b
'''


@rule("C05", "choice-and-values", minimum=5)
def values(ctx):
    lab = ctx.lab()
    i8 = "int8"
    g = lab.bind(MIX, M("mod", S("container", "c", leaf("z", i8), S("choice", "ch", S("case", "x", leaf("a", i8)), S("case", "y", leaf("b", i8), leaf("d", i8, S("default", "4")))),
        S("choice", "tt", S("case", "t1", leaf("t1", i8)), S("case", "t2", leaf("t2", i8)), S("case", "t3", leaf("t3", i8))))))
    site = lab.site(YT + "YANGDynClass.YANGBaseClass._set")
    run(ctx, lab, g, "any value", "ok", {"v": "int"}, lambda r, rep: False if isinstance(r, Raised) else same(r, (not -128 <= rep["v"] <= 127, -128 <= rep["v"] <= 127, True)), vals(-129, -128, 0, 127, 128), site)
    run(ctx, lab, g, "reading and resetting", "unset", {}, ((True, 1), (True, 1)), ({},), site)
    run(ctx, lab, g, "back to the default", "dflt", {}, (False, 4, 1), ({},), site)
    run(ctx, lab, g, "three cases", "three", {}, ((False, True, False), (False, False, True)), ({},), site)
    run(ctx, lab, g, "container taken over from another tree", "obj", {}, (False, 5), ({},), site)
