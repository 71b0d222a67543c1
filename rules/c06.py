"""C06: read-only nodes cannot be assigned by users, at any depth."""

from .common import *

explain("C06", "For every kind of node below every chain of containers, lists and choices with a config statement at each possible place, drivers that assign the node, use the private setter and read the configuration flag are interpreted abstractly through emitted code and library.")

BITS = typ("bits", S("bit", "p", S("position", "0")))
KINDS = {
    "leaf": (lambda n, *s: leaf(n, "string", *s), "'v'", "v"),
    "int leaf": (lambda n, *s: leaf(n, "int8", *s), "5", 5),
    "leaf with default": (lambda n, *s: leaf(n, "string", S("default", "d"), *s), "'v'", "v"),
    "leaf-list": (lambda n, *s: S("leaf-list", n, typ("int8"), *s), "[1]", [1]),
    "bits": (lambda n, *s: leaf(n, BITS, *s), "'p'", frozenset(("p",))),
    "union": (lambda n, *s: leaf(n, typ("union", typ("int8"), typ("string")), *s), "'v'", "v"),
    "leafref": (lambda n, *s: leaf(n, typ("leafref", S("path", "/z")), *s), "'v'", "v"),
    "enumeration": (lambda n, *s: leaf(n, typ("enumeration", S("enum", "A")), *s), "'A'", "A"),
    "identityref": (lambda n, *s: leaf(n, typ("identityref", S("base", "idb")), *s), "'idd'", "idd"),
    "boolean": (lambda n, *s: leaf(n, "boolean", *s), "True", True),
    "empty": (lambda n, *s: leaf(n, "empty", *s), "True", True),
}
HEAD = [S("identity", "idb"), S("identity", "idd", S("base", "idb")), leaf("z", "string")]
RO = S("config", "false")
RW = S("config", "true")

# wrapper: (statement builder around kids, expression of the object holding the kids)
WRAPS = {
    "container": lambda n, i, kids, cfg: (S("container", n, *(cfg + kids)), "%s." + pyname(n)),
    "list": lambda n, i, kids, cfg: (S("list", n, *(cfg + [S("key", "k%d" % i), leaf("k%d" % i, "string")] + kids)), "%s." + pyname(n) + '.add("e%d")' % i),
    "choice": lambda n, i, kids, cfg: (S("choice", n, *(cfg + [S("case", "c%d" % i, *kids)])), "%s"),
    "nested choice": lambda n, i, kids, cfg: (S("choice", n, *(cfg + [S("case", "c%d" % i, S("choice", "in%d" % i, S("case", "d%d" % i, *kids)))])), "%s"),
    "keyless list": lambda n, i, kids, cfg: (S("list", n, *(cfg + kids)), "_e(%s." + pyname(n) + ")"),
}
CHAINS = [
    # [(wrapper, config statement at it)], innermost last
    [("container", None)], [("container", RO)], [("container", RW)], [("list", None)], [("list", RO)], [("choice", None)], [("choice", RO)], [("nested choice", RO)],
    [("container", RO), ("container", None)], [("container", RO), ("container", None), ("container", None)], [("container", RO), ("list", None)], [("list", RO), ("container", None)],
    [("list", RO), ("list", None)], [("container", RO), ("choice", None)], [("choice", RO), ("container", None)], [("choice", RO), ("list", None)], [("container", None), ("choice", RO), ("container", None)],
    [("container", None), ("container", None)], [("container", RW), ("container", RO)], [("list", None), ("list", None)], [("choice", None), ("container", RO)], [("container", RO), ("keyless list", None)],
    [("keyless list", RO)], [("keyless list", RO), ("container", None)], [("choice", RO), ("choice", None)], [("container", None), ("nested choice", None)], [("container", None), ("list", None), ("container", None), ("list", RO)],
]
HELP = '''
def _e(l):
    return l[l.add()]
'''
DRV = '''
def d{i}():
    m = mod()
    e = {acc}
    flag = e.{n}._is_config
    r = False
    try:
        e.{n} = {v}
    except AttributeError:
        r = True
    after = e.{n}._changed()
    e._set_{n}({v})
    return flag, r, after, e.{n}, e.{n}._changed(), e.{n}._is_config
'''


def names(i, chain, kd):
    return "chain of " + " / ".join(w + ("" if c is None else "(config %s)" % c[1]) for w, c in chain) + ": " + kd


@rule("C06", "inheritance", minimum=60, limit=300)
def inheritance(ctx):
    lab = ctx.lab()
    D, todo, tops, i = HELP, [], [], 0
    kinds = list(KINDS)
    for ci, chain in enumerate(CHAINS):
        rw = not any(c is not None and c[1] == "false" for _, c in chain)
        kids, mine = [], []
        for j in range(3):
            kd = kinds[(ci * 3 + j) % len(kinds)]
            mk, v, w = KINDS[kd]
            n = "n%d" % i
            kids.append(mk(n))
            mine.append((i, n, kd, v, w, rw))
            i += 1
        if rw and chain[-1][0] != "list":
            mk, v, w = KINDS["leaf"]
            kids.append(mk("n%d" % i, RO))
            mine.append((i, "n%d" % i, "leaf with config false", v, w, False))
            i += 1
        accs = "m"
        st = kids
        # build from the innermost wrapper outwards
        exprs = []
        for d in range(len(chain) - 1, -1, -1):
            wname, cfg = chain[d]
            s, ex = WRAPS[wname]("w%d-%d" % (ci, d), ci * 10 + d, st, [] if cfg is None else [cfg])
            st = [s]
            exprs.append(ex)
        for ex in reversed(exprs):
            accs = ex % accs
        tops.extend(st)
        for k, n, kd, v, w, r in mine:
            D += DRV.format(i=k, acc=accs, n=n, v=v)
            todo.append((names(ci, chain, kd), "d%d" % k, (r, not r, r, w, True, r)))
    g = lab.bind(D, M("mod", *(HEAD + tops), prefix="m"))
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(PB + "get_children"))


@rule("C06", "each-kind-of-node", minimum=20)
def each_kind(ctx):
    """Every kind of node, writable and read-only, at the top of a module."""
    lab = ctx.lab()
    D, todo, kids = HELP, [], []
    for i, (kd, (mk, v, w)) in enumerate(KINDS.items()):
        for j, cfg in enumerate(([], [RO], [RW])):
            k = i * 3 + j
            n = "n%d" % k
            kids.append(mk(n, *cfg))
            D += DRV.format(i=k, acc="m", n=n, v=v)
            r = j != 1
            todo.append((kd + ("", " (config false)", " (config true)")[j], "d%d" % k, (r, not r, r, w, True, r)))
    g = lab.bind(D, M("mod", *(HEAD + kids), prefix="m"))
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(PB + "get_children"))


OBJ = '''
def cfgs():
    m = mod()
    e = m.b.l.add("k")
    return m.a._is_config, m.a.c._is_config, m.b._is_config, m.b.l._is_config, m.b.d._is_config, m.b.ro._is_config, m.b.ro.l._is_config, m.b.lro._is_config, m.p._is_config
def cont():
    m = mod()
    n = mod()
    r = 0
    try:
        m.a = n.a
    except AttributeError:
        r += 1
    try:
        m.b = n.b
    except AttributeError:
        r += 10
    try:
        m.b.ro = n.b.ro
    except AttributeError:
        r += 100
    try:
        m.a.c = n.a.c
    except AttributeError:
        r += 1000
    m._set_a(n.a)
    m.b._set_ro(n.b.ro)
    return r, m.a._is_config, m.b.ro._is_config
def entries():
    m = mod()
    e = m.b.l.add("k")
    f = m.b.lro.add("k")
    r = 0
    e.v = "x"
    try:
        f.v = "x"
    except AttributeError:
        r = 1
    f._set_v("y")
    return r, e.v, f.v, e.v._is_config, f.v._is_config
def top():
    m = mod()
    r = 0
    try:
        m.s = "x"
    except AttributeError:
        r = 1
    m.t = "y"
    return r, m.s._changed(), m.t
'''


@rule("C06", "containers-and-lists", minimum=4)
def objects(ctx):
    lab = ctx.lab()
    lst = lambda n, *c: S("list", n, *(list(c) + [S("key", "k"), leaf("k", "string"), leaf("v", "string")]))  # noqa: E731
    g = lab.bind(OBJ, M("mod", S("container", "a", RO, leaf("x", "string"), S("container", "c", leaf("y", "string"))),
        S("container", "b", lst("l"), lst("lro", RO), S("container", "d", leaf("q", "string")), S("container", "ro", RO, lst("l"))), S("container", "p", S("presence", "x"), leaf("q", "string")), leaf("s", "string", RO), leaf("t", "string")))
    F, T_ = False, True
    site = lab.site(PB + "get_children")
    run(ctx, lab, g, "flags of containers and lists", "cfgs", {}, (F, F, T_, T_, T_, F, F, F, T_), ({},), site)
    run(ctx, lab, g, "assigning containers", "cont", {}, (1101, F, F), ({},), site)
    run(ctx, lab, g, "leaves of entries", "entries", {}, (1, "x", "y", T_, F), ({},), site)
    run(ctx, lab, g, "top level", "top", {}, (1, F, "y"), ({},), site)


@rule("C06", "with-every-option", minimum=8)
def options(ctx):
    """The generator options do not change who may assign."""
    for opt in ({"use_extmethods": True}, {"generate_presence": True}, {"use_xpathhelper": True}, {"use_extmethods": True, "generate_presence": True}):
        lab = ctx.lab()
        D, todo = HELP, []
        for i, (n, r) in enumerate([("a", True), ("b", False), ("d.e", False), ("d.f.g", False)]):
            acc, _, leafn = ("m." + n).rpartition(".")
            D += DRV.format(i=i, acc=acc, n=leafn, v="'v'")
            todo.append((n, "d%d" % i, (r, not r, r, "v", True, r)))
        try:
            g = lab.bind(D, M("mod", leaf("a", "string"), leaf("b", "string", RO), S("container", "d", RO, leaf("e", "string"), S("container", "f", leaf("g", "string")))), **opt)
        except Undecided as e:
            ctx.und(str(opt), str(e))
            continue
        for inst, fn, w in todo:
            run(ctx, lab, g, "%s with %s" % (inst, ", ".join(sorted(opt))), fn, {}, w, ({},), lab.site(PB + "get_children"))
