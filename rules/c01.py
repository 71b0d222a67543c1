"""C01: assignment stores a typed value or changes nothing."""

import decimal

from .common import *

explain("C01", "Drivers that assign, reject and reset nodes of every kind are interpreted abstractly through emitted code and library; checked are the value read back on every path, the state left behind by every refusing path, and the metadata of the object built at creation, assignment and reset.")

KINDS = {
    # kind: (statement, class of values, good constants -> stored, bad constants)
    "string": (lambda n: leaf(n, "string"), [("abc", "abc"), ("", "")], []),
    "int8": (lambda n: leaf(n, "int8"), [(5, 5), (-128, -128), ("7", 7)], [128, -129, "x", ""]),
    "uint64": (lambda n: leaf(n, "uint64"), [(2**64 - 1, 2**64 - 1)], [2**64, -1, "x"]),
    "ranged": (lambda n: leaf(n, typ("int32", S("range", "1..5"))), [(3, 3)], [0, 6, "x"]),
    "pattern": (lambda n: leaf(n, typ("string", S("pattern", "a+"))), [("aa", "aa")], ["b", "ab", ""]),
    "length": (lambda n: leaf(n, typ("string", S("length", "2..3"))), [("ab", "ab")], ["a", "abcd"]),
    "boolean": (lambda n: leaf(n, "boolean"), [(True, 1), ("false", 0)], ["maybe", 7]),
    "enumeration": (lambda n: leaf(n, typ("enumeration", S("enum", "A"), S("enum", "B"))), [("A", "A")], ["C", ""]),
    "decimal64": (lambda n: leaf(n, typ("decimal64", S("fraction-digits", "2"))), [("1.5", decimal.Decimal("1.50")), (2, decimal.Decimal("2.00"))], ["x"]),
    "binary": (lambda n: leaf(n, "binary"), [(b"ab", b"ab")], [5]),
    "bits": (lambda n: leaf(n, typ("bits", S("bit", "a", S("position", "0")), S("bit", "b", S("position", "1")))), [("a b", frozenset(("a", "b"))), ("a", frozenset(("a",)))], ["c", "a c", 5]),
    "union": (lambda n: leaf(n, typ("union", typ("int8"), typ("enumeration", S("enum", "auto")))), [(5, 5), ("auto", "auto")], ["x", 300]),
    "identityref": (lambda n: leaf(n, typ("identityref", S("base", "idb"))), [("idd", "idd"), ("m:idd", "m:idd")], ["idx", "idb", "x:idd"]),
    "leafref": (lambda n: leaf(n, typ("leafref", S("path", "../k"))), [("q", "q")], []),
    "empty": (lambda n: leaf(n, "empty"), [(True, 1)], ["x"]),
    "leaf-list": (lambda n: S("leaf-list", n, typ("int8")), [([1, 2], [1, 2]), ([], []), (5, [5])], [[1, 300], ["x"], 300]),
    "typedef": (lambda n: leaf(n, "td"), [(3, 3)], [0, 6]),
}
HEAD = [S("identity", "idb"), S("identity", "idd", S("base", "idb")), S("typedef", "td", typ("int32", S("range", "1..5"))), leaf("k", "string")]


def lit(v):
    return repr(v)


@rule("C01", "assign-and-read-back", minimum=20)
def readback(ctx):
    lab = ctx.lab()
    D, todo = "", []
    for kd, (mk, good, bad) in KINDS.items():
        n = "x_" + pyname(kd)
        for j, (x, w) in enumerate(good):
            D += "def g_%s_%d():\n    m = mod()\n    m.c.%s = %s\n    return m.c.%s, m.c._get_%s(), m.c.%s._changed()\n" % (n, j, n, lit(x), n, n, n)
            todo.append(("%s <- %r" % (kd, x), "g_%s_%d" % (n, j), (w, w, True)))
    g = lab.bind(D, M("mod", *(HEAD + [S("container", "c", leaf("k", "string"), *[mk("x_" + kd) for kd, (mk, _, _) in KINDS.items()])]), prefix="m"))
    for inst, fn, w in todo:
        if inst.startswith("leafref"):
            w = ("q", "q", True)
        run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(YT + "YANGDynClass"))


REJ = '''
def r_{n}_{j}():
    m = mod()
    r = False
    try:
        m.c.{n} = {x}
    except ValueError:
        r = True
    return r, m.c.{n}, m.c.{n}._changed(), m.c._changed(), m.c.oth, m.c.oth._changed()
def o_{n}_{j}():
    m = mod()
    m.c.{n} = {good}
    old = m.c.{n}
    r = False
    try:
        m.c.{n} = {x}
    except ValueError:
        r = True
    return r, m.c.{n} is old, m.c.{n}
'''


@rule("C01", "refusal-changes-nothing", minimum=20)
def refusal(ctx):
    lab = ctx.lab()
    D, todo = "", []
    for kd, (mk, good, bad) in KINDS.items():
        n = "x_" + pyname(kd)
        for j, x in enumerate(bad):
            D += REJ.format(n=n, j=j, x=lit(x), good=lit(good[0][0]))
            todo.append((kd, x, n, j, good[0][1]))
    # every leaf sits in one case of a choice whose other case has a value
    kids = [S("choice", "ch_" + pyname(kd), S("case", "this", mk("x_" + pyname(kd)))) for kd, (mk, _, _) in KINDS.items()]
    g = lab.bind(D, M("mod", *(HEAD + [S("container", "c", leaf("k", "string"), leaf("oth", "string"), *kids)]), prefix="m"))
    site = lab.site(YT + "YANGDynClass.YANGBaseClass.__init__")
    for kd, x, n, j, goodv in todo:
        empty = {"bits": frozenset(), "leaf-list": []}.get(kd, ANY)

        def want(r, rep, empty=empty):
            if isinstance(r, Raised):
                return False
            if not isinstance(r, tuple):
                return None
            return same(r, (True, empty, False, False, "", False))

        run(ctx, lab, g, "%s refuses %r on a fresh node" % (kd, x), "r_%s_%d" % (n, j), {}, want, ({},), site)
        run(ctx, lab, g, "%s refuses %r after a value" % (kd, x), "o_%s_%d" % (n, j), {}, lambda r, rep, goodv=goodv: False if isinstance(r, Raised) else same(r, (True, True, goodv)), ({},), site)


CHO = '''
def ch(v):
    m = mod()
    m.c.a = "one"
    r = False
    try:
        m.c.b = v
    except ValueError:
        r = True
    return r, m.c.a, m.c.a._changed(), m.c.b._changed()
def chl(v):
    m = mod()
    m.c.a = "one"
    r = False
    try:
        m.c.l = [v]
    except ValueError:
        r = True
    return r, m.c.a, m.c.a._changed(), m.c.l._changed()
def chb():
    m = mod()
    m.c.a = "one"
    r = False
    try:
        m.c.t = "nobit"
    except ValueError:
        r = True
    return r, m.c.a, m.c.a._changed(), m.c.t._changed()
'''


@rule("C01", "refusal-keeps-other-case", minimum=3)
def refusal_choice(ctx):
    lab = ctx.lab()
    bits = typ("bits", S("bit", "a", S("position", "0")))
    g = lab.bind(CHO, M("mod", S("container", "c", S("choice", "ch", S("case", "x", leaf("a", "string")), S("case", "y", leaf("b", "int8"), S("leaf-list", "l", typ("int8")), leaf("t", bits))))))
    site = lab.site(YT + "YANGDynClass.YANGBaseClass.__init__")

    def want(r, rep):
        ok = -128 <= rep["v"] <= 127
        if isinstance(r, Raised):
            return False
        return same(r, (False, "", False, True) if ok else (True, "one", True, False))

    run(ctx, lab, g, "leaf in another case", "ch", {"v": "int"}, want, vals(-129, -128, 0, 127, 128), site)
    run(ctx, lab, g, "leaf-list in another case", "chl", {"v": "int"}, want, vals(-129, -128, 0, 127, 128), site)
    run(ctx, lab, g, "bits in another case", "chb", {}, (True, "one", True, False), ({},), site)


META = '''
def meta(x):
    return (x._yang_name, x._namespace, x._defining_module, x._yang_type, x._is_config, x._is_leaf, x._is_container, x._default, x.default(), x._choice, x._is_keyval, x._presence, x._register_paths, x._extensions(), x._path(), x.yang_name())
def same_parent(x, p):
    return x._parent is p
'''


@rule("C01", "same-node-after-set-and-reset", minimum=15)
def meta(ctx):
    """The object built at creation, on assignment and on reset carries the same metadata."""
    lab = ctx.lab()
    D = META
    kinds = dict(KINDS)
    kinds["container"] = (lambda n: S("container", n, leaf("in", "string")), None, [])
    kinds["list"] = (lambda n: S("list", n, S("key", "lk"), leaf("lk", "string")), None, [])
    kinds["defaulted"] = (lambda n: leaf(n, "int8", S("default", "4")), [(5, 5)], [])
    kinds["read-only"] = (lambda n: leaf(n, "int8", S("config", "false")), [(5, 5)], [])
    for kd, (mk, good, _) in kinds.items():
        n = "x_" + pyname(kd)
        if good is not None:
            D += "def m_%s():\n    m = mod()\n    a, p = meta(m.c.%s), m.c.%s._parent is m.c\n    m.c._set_%s(%s)\n    b, q = meta(m.c.%s), m.c.%s._parent is m.c\n    m.c._unset_%s()\n    return a, b, meta(m.c.%s), p, q, m.c.%s._parent is m.c\n" % (n, n, n, n, lit(good[0][0]), n, n, n, n, n)
        else:
            D += "def m_%s():\n    m = mod()\n    a, p = meta(m.c.%s), m.c.%s._parent is m.c\n    m.c._unset_%s()\n    return a, a, meta(m.c.%s), p, p, m.c.%s._parent is m.c\n" % (n, n, n, n, n, n)
    g = lab.bind(D, M("mod", *(HEAD + [S("container", "c", leaf("k", "string"), *[S("choice", "ch" + pyname(kd), S("case", "cs" + pyname(kd), mk("x_" + kd))) for kd, (mk, _, _) in kinds.items()])]), prefix="m"), generate_presence=True)
    for kd in kinds:
        n = "x_" + pyname(kd)

        def want(r, rep, kd=kd):
            if isinstance(r, Raised):
                return False
            if not isinstance(r, tuple) or len(r) != 6:
                return None
            a, b, c, p, q, s = r
            bad = [False for u in (b, c) for i, (x, y) in enumerate(zip(a, u)) if same(y, x) is False]
            if bad or False in (p, q, s):
                return False
            w = ("x_" + kd, "urn:mod", "mod")
            if same(a[:3], w) is False or same(a[9], ("ch" + pyname(kd), "cs" + pyname(kd))) is False:
                return False
            if same(a[4], kd != "read-only") is False:
                return False
            und = [1 for u in (b, c) for x, y in zip(a, u) if same(y, x) is not True and not (isinstance(x, Opaque) and repr(x) == repr(y))]
            return None if und or (p, q, s) != (True, True, True) else True

        run(ctx, lab, g, kd, "m_" + n, {}, want, ({},), lab.site(PB + "get_children"))
