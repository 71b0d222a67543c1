"""C04: every modification marks the node and all its ancestors as changed."""

from .common import *

explain("C04", "Drivers that apply each modifying operation to a node three levels down (in containers, in a list entry, in a choice) are interpreted abstractly through emitted code and library; checked are the change flags of the node, of each ancestor and of a sibling on every path.")

BITS = typ("bits", S("bit", "p", S("position", "0")), S("bit", "q", S("position", "1")))
NODES = [
    ("string", leaf("xstring", "string"), '"v"'),
    ("int8", leaf("xint", "int8"), "5"),
    ("boolean", leaf("xbool", "boolean"), "True"),
    ("empty", leaf("xempty", "empty"), "True"),
    ("decimal64", leaf("xdec", typ("decimal64", S("fraction-digits", "2"))), '"1.5"'),
    ("enumeration", leaf("xenum", typ("enumeration", S("enum", "A"))), '"A"'),
    ("union", leaf("xunion", typ("union", typ("int8"), typ("string"))), '"zz"'),
    ("identityref", leaf("xid", typ("identityref", S("base", "idb"))), '"idd"'),
    ("leafref", leaf("xref", typ("leafref", S("path", "../sib"))), '"q"'),
    ("binary", leaf("xbin", "binary"), 'b"q"'),
    ("bits", leaf("xbits", BITS), '"p"'),
    ("leaf-list", S("leaf-list", "xll", typ("int8")), "[1]"),
    ("value equal to the default", leaf("xdef", "int8", S("default", "4")), "4"),
    ("false", leaf("xfalse", "boolean"), "False"),
    ("zero", leaf("xzero", "int8"), "0"),
    ("empty string", leaf("xes", "string"), '""'),
    ("in a choice", S("choice", "cc", S("case", "c1", leaf("xch", "string")), S("case", "c2", leaf("xch2", "string"))), '"v"'),
]
# operation on a leaf-list holding 3, 4 that modifies it
LLOPS = [("append", "l.append(5)"), ("insert", "l.insert(0, 5)"), ("extend", "l.extend([5])"), ("item assignment", "l[0] = 5"), ("del", "del l[0]"), ("pop", "l.pop()"), ("pop first", "l.pop(0)"), ("remove", "l.remove(3)"), ("clear", "l.clear()"), ("+=", "l += [5]")]
BITOPS = [("add", 'l.add("q")'), ("discard", 'l.discard("p")'), ("remove", 'l.remove("p")'), ("pop", "l.pop()"), ("clear", "l.clear()"), ("update", 'l.update({"q"})'), ("|=", 'l |= {"q"}'), ("-=", 'l -= {"p"}'), ("&=", 'l &= {"q"}'), ("^=", 'l ^= {"q"}'), ("difference_update", 'l.difference_update({"p"})')]
HEAD = [S("identity", "idb"), S("identity", "idd", S("base", "idb"))]
HELP = '''
def anc(m, e):
    return m.a._changed(), m.a.b._changed(), e._changed()
def reset(m, e, *more):
    for x in (m.a, m.a.b, e) + more:
        x._mchanged = False
'''


def bodies(acc):
    """acc: expression of the node's parent, given m."""
    D, todo = HELP, []
    for kd, st, v in NODES:
        n = st[1] if st[0] != "choice" else "xch"
        D += "def s_%s():\n    m = mod()\n    e = %s\n    reset(m, e)\n    before = e.%s._changed()\n    e.%s = %s\n    return before, e.%s._changed(), anc(m, e), e.sib._changed()\n" % (n, acc, n, n, v, n)
        todo.append(("assign " + kd, "s_" + n, (False, True, (True, True, True), False)))
        D += "def p_%s():\n    m = mod()\n    e = %s\n    reset(m, e)\n    e._set_%s(%s)\n    return e.%s._changed(), anc(m, e), e.sib._changed()\n" % (n, acc, n, v, n)
        todo.append(("private setter of " + kd, "p_" + n, (True, (True, True, True), False)))
        D += "def u_%s():\n    m = mod()\n    e = %s\n    e.%s = %s\n    reset(m, e)\n    e._unset_%s()\n    return e.%s._changed(), anc(m, e), e.sib._changed()\n" % (n, acc, n, v, n, n)
        todo.append(("reset " + kd, "u_" + n, (False, (False, False, False), False)))
        D += "def r_%s():\n    m = mod()\n    e = %s\n    reset(m, e)\n    e.%s\n    e._get_%s()\n    str(e.%s)\n    return e.%s._changed(), anc(m, e), e.sib._changed()\n" % (n, acc, n, n, n, n)
        todo.append(("read " + kd, "r_" + n, (False, (False, False, False), False)))
    for i, (nm, op) in enumerate(LLOPS):
        D += "def l_%d():\n    m = mod()\n    e = %s\n    e.xll = [3, 4]\n    reset(m, e, e.xll)\n    l = e.xll\n    %s\n    return e.xll._changed(), anc(m, e), e.sib._changed()\n" % (i, acc, op)
        todo.append(("leaf-list " + nm, "l_%d" % i, (True, (True, True, True), False)))
    for i, (nm, op) in enumerate(BITOPS):
        D += "def b_%d():\n    m = mod()\n    e = %s\n    e.xbits = \"p\"\n    reset(m, e, e.xbits)\n    l = e.xbits\n    %s\n    return e.xbits._changed(), anc(m, e), e.sib._changed()\n" % (i, acc, op)
        todo.append(("bits " + nm, "b_%d" % i, (True, (True, True, True), False)))
    # refused operations
    for nm, kind, op, init in [("append", "xll", "l.append(300)", "[3, 4]"), ("insert", "xll", "l.insert(0, 300)", "[3, 4]"), ("item assignment", "xll", "l[0] = 300", "[3, 4]"), ("remove of an absent value", "xll", "l.remove(9)", "[3, 4]"), ("pop of an absent index", "xll", "l.pop(9)", "[3, 4]"), ("bits add", "xbits", 'l.add("zz")', '"p"'), ("bits update", "xbits", 'l.update({"zz"})', '"p"'), ("bits discard", "xbits", 'l.discard("zz")', '"p"'), ("del of an absent index", "xll", "del l[9]", "[3, 4]")]:
        f = "f_%d" % len(todo)
        D += "def %s():\n    m = mod()\n    e = %s\n    e.%s = %s\n    reset(m, e, e.%s)\n    l = e.%s\n    r = False\n    try:\n        %s\n    except (ValueError, IndexError):\n        r = True\n    return r, e.%s._changed(), anc(m, e), e.sib._changed()\n" % (f, acc, kind, init, kind, kind, op, kind)
        todo.append(("refused " + nm, f, (True, False, (False, False, False), False)))
    return D, todo


@rule("C04", "flags-in-containers", minimum=60)
def containers(ctx):
    lab = ctx.lab()
    D, todo = bodies("m.a.b.c")
    g = lab.bind(D, M("mod", *(HEAD + [S("container", "a", S("container", "b", S("container", "c", leaf("sib", "string"), *[n for _, n, _ in NODES])))]), prefix="m"))
    for nm, fn, w in todo:
        run(ctx, lab, g, nm, fn, {}, w, ({},), lab.site(YT + "YANGDynClass"))


@rule("C04", "flags-in-list-entries", minimum=60)
def entries(ctx):
    lab = ctx.lab()
    D, todo = bodies('m.a.b.li.add("k1")')
    g = lab.bind(D, M("mod", *(HEAD + [S("container", "a", S("container", "b", S("list", "li", S("key", "k"), leaf("k", "string"), leaf("sib", "string"), *[n for _, n, _ in NODES])))]), prefix="m"))
    for nm, fn, w in todo:
        run(ctx, lab, g, nm, fn, {}, w, ({},), lab.site(YT + "YANGDynClass"))


@rule("C04", "flags-of-read-only-nodes", minimum=40)
def readonly(ctx):
    """config false containers: everything is done through the private setters."""
    lab = ctx.lab()
    D, todo = HELP, []
    for kd, st, v in NODES:
        n = st[1] if st[0] != "choice" else "xch"
        D += "def p_%s():\n    m = mod()\n    e = m.a.b.c\n    e._set_%s(%s)\n    return e.%s._changed(), anc(m, e), e.sib._changed()\n" % (n, n, v, n)
        todo.append(("private setter of " + kd, "p_" + n, (True, (True, True, True), False)))
        D += "def u_%s():\n    m = mod()\n    e = m.a.b.c\n    e._set_%s(%s)\n    reset(m, e)\n    e._unset_%s()\n    return e.%s._changed(), anc(m, e), e.sib._changed()\n" % (n, n, v, n, n)
        todo.append(("reset " + kd, "u_" + n, (False, (False, False, False), False)))
        D += "def r_%s():\n    m = mod()\n    e = m.a.b.c\n    e.%s\n    e._get_%s()\n    return e.%s._changed(), anc(m, e), e.sib._changed()\n" % (n, n, n, n)
        todo.append(("read " + kd, "r_" + n, (False, (False, False, False), False)))
    g = lab.bind(D, M("mod", *(HEAD + [S("container", "a", S("container", "b", S("config", "false"), S("container", "c", leaf("sib", "string"), *[n for _, n, _ in NODES])))]), prefix="m"), generate_presence=True, use_extmethods=True)
    for nm, fn, w in todo:
        run(ctx, lab, g, nm, fn, {}, w, ({},), lab.site(YT + "YANGDynClass"))


LST = '''
def anc(m):
    return m.a._changed(), m.a.b._changed()
def add():
    m = mod()
    e = m.a.b.li.add("k1")
    return anc(m), e._changed(), e.k._changed(), e.v._changed()
def add2():
    m = mod()
    e = m.a.b.l2.add("1 2")
    return anc(m), e._changed(), e.k1._changed(), e.k2._changed(), e.v._changed()
def addkw():
    m = mod()
    e = m.a.b.l2.add(k1=1, k2=2)
    return anc(m), e._changed(), e.k1._changed(), e.k2._changed(), e.v._changed()
def app():
    m = mod()
    e = m.a.b.li._new_item()
    e._set_k("k1")
    m.a.b.li.append(e)
    return anc(m), m.a.b.li["k1"]._changed()
def dele():
    m = mod()
    m.a.b.li.add("k1")
    m.a._mchanged = m.a.b._mchanged = m.a.b.li._mchanged = False
    del m.a.b.li["k1"]
    return anc(m), m.a.b.li._changed()
def addbad():
    m = mod()
    r = False
    try:
        m.a.b.ln.add(300)
    except (KeyError, ValueError):
        r = True
    return r, anc(m), m.a.b.ln._changed()
def nokey():
    m = mod()
    k = m.a.b.lx.add()
    m.a.b.lx[k]._set_v(3)
    return anc(m), m.a.b.lx[k]._changed(), m.a.b.lx[k].v._changed()
def two():
    m = mod()
    m.a.b.li.add("k1")
    m.a.b.li.add("k2")
    for x in (m.a, m.a.b, m.a.b.li["k1"], m.a.b.li["k2"]):
        x._mchanged = False
    m.a.b.li["k2"].inner.z = 3
    return anc(m), m.a.b.li["k1"]._changed(), m.a.b.li["k2"]._changed(), m.a.b.li["k2"].inner._changed(), m.a.b.li["k1"].inner._changed()
def fresh():
    m = mod()
    return anc(m), m.a.b.li._changed(), m.a.p._changed(), m.a.b.d._changed()
def setp():
    m = mod()
    m.a.p._set_present()
    return m.a._changed(), m.a.p._changed(), m.a.b._changed()
'''


@rule("C04", "flags-of-lists", minimum=8)
def lists(ctx):
    lab = ctx.lab()
    g = lab.bind(LST, M("mod", S("container", "a", S("container", "p", S("presence", "x"), leaf("q", "string")), S("container", "b",
        leaf("d", "int8", S("default", "3")),
        S("list", "li", S("key", "k"), leaf("k", "string"), leaf("v", "int8"), S("container", "inner", leaf("z", "int8"))),
        S("list", "ln", S("key", "k"), leaf("k", "int8"), leaf("v", "int8")),
        S("list", "lx", S("config", "false"), leaf("v", "int8"), i_config=False),
        S("list", "l2", S("key", "k1 k2"), leaf("k1", "int8"), leaf("k2", "int8"), leaf("v", "int8"))))), generate_presence=True)
    T2 = (True, True)
    for fn, what, w in [
        ("add", "add an entry", (T2, True, True, False)),
        ("add2", "add an entry by two keys", (T2, True, True, True, False)),
        ("addkw", "add an entry by keywords", (T2, True, True, True, False)),
        ("app", "append an entry", (T2, True)),
        ("dele", "delete an entry", (T2, True)),
        ("addbad", "add an entry with an invalid key", (True, (False, False), False)),
        ("nokey", "leaf of an entry without key", (T2, True, True)),
        ("two", "leaf below one of two entries", (T2, False, True, True, False)),
        ("fresh", "fresh tree", ((False, False), False, False, False)),
        ("setp", "set a container present", (True, True, False)),
    ]:
        run(ctx, lab, g, what, fn, {}, w, ({},), lab.site(YT + "YANGDynClass.YANGBaseClass._set"))


ABS = '''
def set_{i}():
    m = mod()
    e = m.a.b.c
    e.{n} = {v}
    for x in [{subset}]:
        x._set_present(False)
    e.{n} = {v}
    return e.{n}._changed(), anc(m, e)
'''
ABSOP = '''
def op_{i}():
    m = mod()
    e = m.a.b.c
    e.xll = [3, 4]
    e.xbits = "p"
    for x in [{subset}]:
        x._set_present(False)
    {op}
    return anc(m, e), [x._present() for x in (m.a, m.a.b, e)]
'''
SUBSETS = ["m.a", "m.a.b", "e", "m.a, m.a.b", "m.a, e", "m.a.b, e", "m.a, m.a.b, e"]


@rule("C04", "below-containers-set-absent", minimum=60)
def absent(ctx):
    """A node below containers that were set absent - so that some of its ancestors are marked as changed and others are not - is modified."""
    lab = ctx.lab()
    D, todo = HELP, []
    for kd, st, v in NODES:
        if kd in ("union", "string", "leaf-list", "bits", "empty", "in a choice", "decimal64"):
            n = st[1] if st[0] != "choice" else "xch"
            for sub in SUBSETS:
                D += ABS.format(i=len(todo), n=n, v=v, subset=sub)
                todo.append(("%s, with %s set absent" % (kd, sub), "set_%d" % len(todo), (True, (True, True, True))))
    for op in ("e.xll.append(5)", "e.xll.pop()", 'e.xbits.add("q")', "e.xbits.clear()"):
        for sub in SUBSETS:
            D += ABSOP.format(i=len(todo), op=op, subset=sub)
            todo.append(("%s, with %s set absent" % (op, sub), "op_%d" % len(todo), ((True, True, True), [True, True, True])))
    pres = lambda n, *x: S("container", n, S("presence", "x"), *x)  # noqa: E731
    g = lab.bind(D, M("mod", *(HEAD + [pres("a", pres("b", pres("c", leaf("sib", "string"), *[n for _, n, _ in NODES])))]), prefix="m"), generate_presence=True)
    for nm, fn, w in todo:
        run(ctx, lab, g, nm, fn, {}, w, ({},), lab.site(YT + "YANGDynClass.YANGBaseClass._set"))
