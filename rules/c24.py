"""C24: a typedef behaves as the type it names, whatever the order of definition."""

import itertools

from .common import *

explain("C24", "Type definitions in chains and unions, in every order, in modules, submodules, imported modules and nodes, with names and prefixes that several of them share, are generated, and leaves of them are assigned values that tell the definitions apart (each has a range, an enumeration, a path or a default of its own); what is accepted, read and defaulted is compared with what the definition that YANG's scoping designates allows. For each kind of type a leaf of a type defined through a chain is compared, for any value, with a leaf that has the type itself.")

SITE = PB + "build_typedefs"
TYPE = PB + "build_elemtype"
FIND = MISC + "find_child_definitions"


def td(name, t, *d):
    return S("typedef", name, typ(t) if isinstance(t, str) else t, *[S("default", x) for x in d])


def rng(lo, hi, base="uint8"):
    return typ(base, S("range", "%d..%d" % (lo, hi)))


def con(n, *s):
    return S("container", n, *s)


NUMS = [0, 1, 5, 6, 9, 10, 11, 15, 16, 20, 21, 25, 26, 31, 35, 36, 41, 45, 46, 256]


def numbers(ctx, lab, inst, mods, leaves, site=SITE, only=None, **opts):
    """leaves: (how to set it from m, (low, high))"""
    cls = (only or [mods[-1][0]])[-1].replace("-", "_")
    NUMS = sorted({x for p, (lo, hi) in leaves for x in (lo - 1, lo, hi, hi + 1)})
    drv = ["def t%d(v):\n    m = %s()\n    try:\n        m.%s = v\n    except ValueError:\n        return False\n    return True\n" % (j, cls, path) for j, (path, lim) in enumerate(leaves)]
    with ctx.instance(inst, site):
        g = lab.bind("\n".join(drv), *mods, only=only, **opts)
        for j, (path, (lo, hi)) in enumerate(leaves):
            sweep(ctx, lab, g, "%s: %s" % (inst, path), "t%d" % j, {}, NUMS, lambda x: lo <= x <= hi, site)


def sweep(ctx, lab, g, inst, fn, given, nums, ok, site):
    """The driver, given each of the numbers, returns whether it is accepted."""
    got = []
    try:
        for x in nums:
            rs = [lab.py(st, r) for st, r in lab.run(g, fn, v=C(x), **given)]
            got.append(rs[0] if len(rs) == 1 and isinstance(rs[0], bool) else False if rs and all(isinstance(r, Raised) and r.name for r in rs) else None)
    except (AnalysisBroken, AnalysisLimit, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
        ctx.und(inst, "%s: %s" % (type(e).__name__, str(e)[:200]), site)
        return
    bad = [x for x, r in zip(nums, got) if r is not None and r != ok(x)]
    acc = "accepted are %s of %s, and should be %s" % ([x for x, r in zip(nums, got) if r], nums, [x for x in nums if ok(x)])
    ctx.check(inst, False if bad else None if None in got else True, acc, "the value %s is %s: %s" % (bad[:1], "refused" if bad and ok(bad[0]) else "accepted", acc), site)


@rule("C24", "chains", 30, limit=200)
def chains(ctx):
    lab = ctx.lab()
    ds = {"a": td("a", rng(1, 45)), "b": td("b", "a"), "c": td("c", typ("b", S("range", "10..26"))), "d": td("d", "c")}
    for p in itertools.permutations(ds):
        numbers(ctx, lab, "order " + "".join(p), [M("mod", *[ds[x] for x in p], leaf("x", "d"), leaf("y", "b"))], [("x", (10, 26)), ("y", (1, 45))])
    numbers(ctx, lab, "leaf before its type", [M("mod", leaf("x", "c"), ds["d"], ds["c"], leaf("y", "a"), ds["b"], ds["a"], prefix="m")], [("x", (10, 26)), ("y", (1, 45))])
    numbers(ctx, lab, "own prefix", [M("mod", td("c", "m:b"), td("b", typ("m:a", S("range", "5..36"))), ds["a"], leaf("x", "m:c"), leaf("y", "b"), prefix="m")], [("x", (5, 36)), ("y", (5, 36))])
    numbers(ctx, lab, "restricted at each step", [M("mod", td("d", typ("c", S("range", "10..26"))), td("c", typ("b", S("range", "6..30"))), td("b", typ("a", S("range", "5..36"))), ds["a"], leaf("x", "d"))], [("x", (10, 26))])
    long = [td("t%d" % i, "t%d" % (i + 1)) for i in range(12)] + [td("t12", rng(5, 9))]
    numbers(ctx, lab, "long chain backwards", [M("mod", *(long + [leaf("x", "t0"), leaf("y", "t11")]))], [("x", (5, 9)), ("y", (5, 9))])
    numbers(ctx, lab, "long chain forwards", [M("mod", *(long[::-1] + [leaf("x", "t0"), leaf("y", "t11")]))], [("x", (5, 9)), ("y", (5, 9))])


@rule("C24", "unions", 24, limit=200)
def unions(ctx):
    lab = ctx.lab()
    U = lambda *a: typ("union", *[typ(x) if isinstance(x, str) else x for x in a])
    ds = {"a": td("a", rng(1, 5)), "u": td("u", U("a", "w")), "w": td("w", U(rng(20, 25), "e")), "e": td("e", typ("enumeration", S("enum", "on"), S("enum", "off")), "on")}
    vals_ = [0, 1, 5, 6, 20, 25, 26, "on", "off", "no", ""]
    want = [1, 5, 20, 25, "on", "off"]
    for p in itertools.permutations(ds):
        inst = "order " + "".join(p)
        with ctx.instance(inst, SITE):
            g = lab.bind('''
def t():
    out = []
    for x in %r:
        m = mod()
        try:
            m.x = x
            out.append(int(m.x) if isinstance(x, int) else str(m.x))
        except ValueError:
            pass
    return out
''' % (vals_,), M("mod", *[ds[x] for x in p], leaf("x", "u")))
            run(ctx, lab, g, inst, "t", {}, want, site=SITE)
    with ctx.instance("members of other modules", SITE):
        alpha = M("alpha", td("a", rng(11, 15)), td("u", U("a", "b")), td("b", rng(31, 35)), prefix="a")
        mod = M("mod", S("import", "alpha", S("prefix", "x")), td("a", rng(1, 5)), td("b", rng(41, 45)), td("u", U("a", "x:u")), leaf("x", "u"), leaf("y", U("x:a", "b")), leaf("z", "x:u"), leaf("n", U(U("a", "x:b"), "x:a")))
        T = '''
def t(n, v):
    m = mod()
    try:
        getattr(m, "_set_" + n)(v)
    except ValueError:
        return False
    return True
'''
        g = lab.bind(T, alpha, mod)
        for n, ls in (("x", [(1, 5), (11, 15), (31, 35)]), ("y", [(11, 15), (41, 45)]), ("z", [(11, 15), (31, 35)]), ("n", [(1, 5), (31, 35), (11, 15)])):
            sweep(ctx, lab, g, "members of other modules " + n, "t", {"n": C(n)}, NUMS, lambda x: any(a <= x <= b for a, b in ls), SITE)


@rule("C24", "modules", 28, limit=200)
def modules(ctx):
    lab = ctx.lab()
    imp = lambda m, p: S("import", m, S("prefix", p))
    A = M("alpha", td("t", rng(1, 5)), td("u", "t"), td("only", rng(20, 26)), prefix="a")
    B = M("beta", imp("alpha", "z"), td("t", rng(11, 15)), td("u", "z:t"), td("w", "t"), td("v", "z:u"), prefix="b")
    numbers(ctx, lab, "same names", [A, B, M("mod", imp("beta", "b"), imp("alpha", "a"), td("t", rng(31, 35)), td("w", "a:t"), td("q", "b:t"), leaf("x", "t"), leaf("x1", "m:t"), leaf("x2", "a:t"), leaf("x3", "b:t"), leaf("y", "w"), leaf("y1", "q"), leaf("z", "a:u"), leaf("z1", "b:u"), leaf("z2", "b:w"), leaf("z3", "b:v"), leaf("o", "a:only"), prefix="m")],
            [("x", (31, 35)), ("x1", (31, 35)), ("x2", (1, 5)), ("x3", (11, 15)), ("y", (1, 5)), ("y1", (11, 15)), ("z", (1, 5)), ("z1", (1, 5)), ("z2", (11, 15)), ("z3", (1, 5)), ("o", (20, 26))])
    numbers(ctx, lab, "one prefix", [M("alpha", td("t", rng(1, 5)), td("u", "p:t"), prefix="p"), M("beta", td("t", rng(11, 15)), td("u", "t"), prefix="p"), M("mod", imp("alpha", "a"), imp("beta", "b"), td("t", rng(31, 35)), td("u", "p:t"), leaf("x", "p:t"), leaf("y", "a:t"), leaf("y1", "a:u"), leaf("z", "b:t"), leaf("z1", "b:u"), leaf("w", "u"), prefix="p")],
            [("x", (31, 35)), ("y", (1, 5)), ("y1", (1, 5)), ("z", (11, 15)), ("z1", (11, 15)), ("w", (31, 35))])
    numbers(ctx, lab, "prefixes swapped", [M("alpha", td("t", rng(1, 5)), prefix="a"), M("beta", td("t", rng(11, 15)), prefix="b"), M("mod", imp("alpha", "b"), imp("beta", "a"), td("p", "a:t"), td("q", "b:t"), leaf("x", "a:t"), leaf("y", "b:t"), leaf("v", "p"), leaf("w", "q"))],
            [("x", (11, 15)), ("y", (1, 5)), ("v", (11, 15)), ("w", (1, 5))])
    numbers(ctx, lab, "prefix that is the name of a module", [M("alpha", td("t", rng(1, 5)), prefix="beta"), M("beta", td("t", rng(11, 15)), prefix="alpha"), M("mod", imp("alpha", "alpha"), imp("beta", "beta"), leaf("x", "alpha:t"), leaf("y", "beta:t"))], [("x", (1, 5)), ("y", (11, 15))])
    G = M("alpha", td("t", rng(1, 5)), td("far", "q"), td("q", "t"), prefix="a")
    numbers(ctx, lab, "import of an import", [G, M("beta", imp("alpha", "a"), td("t", "a:far"), prefix="b"), M("gamma", imp("beta", "b"), td("t", typ("b:t", S("range", "1..4"))), prefix="g"), M("mod", imp("gamma", "g"), leaf("x", "g:t"))], [("x", (1, 4))])
    two = [M("alpha", td("t", rng(1, 5)), leaf("x", "t"), prefix="a"), M("beta", imp("alpha", "a"), td("t", rng(11, 15)), leaf("x", "t"), leaf("y", "a:t"), prefix="b")]
    numbers(ctx, lab, "both generated", two, [("x", (11, 15)), ("y", (1, 5))], only=["alpha", "beta"])
    numbers(ctx, lab, "both generated in reverse", two, [("x", (1, 5))], only=["beta", "alpha"])
    # nodes that an augment put into the tree of another module have types of the module of the augment
    numbers(ctx, lab, "augment", [M("aug", td("t", rng(11, 15)), prefix="g"), M("mod", td("t", rng(1, 5)), con("c", leaf("a", "t"), S("leaf", "b", typ("t"), aug="aug")))], [("c.a", (1, 5)), ("c.b", (11, 15))], only=["aug", "mod"])


@rule("C24", "submodules", 8, limit=200)
def submodules(ctx):
    lab = ctx.lab()
    imp = lambda m, p: S("import", m, S("prefix", p))
    inc = S("include", "sub")
    A = M("alpha", td("t", rng(31, 35)), td("s", rng(41, 45)), prefix="a")
    numbers(ctx, lab, "in a submodule", [M("mod", inc, td("t", rng(1, 5)), td("v", "s"), leaf("x", "s"), leaf("y", "v"), leaf("z", "m:w"), prefix="m"), M("sub", td("s", rng(11, 15)), td("w", "t"), prefix="m", keyword="submodule", belongs_to="mod")], [("x", (11, 15)), ("y", (11, 15)), ("z", (1, 5))], only=["mod"])
    numbers(ctx, lab, "prefix of the submodule", [A, M("mod", inc, imp("alpha", "x"), td("t", rng(1, 5)), leaf("x", "w"), leaf("y", "v"), leaf("z", "x:t"), leaf("q", "q"), prefix="m"), M("sub", imp("alpha", "y"), td("s", rng(11, 15)), td("w", "x:s"), td("v", "x:t"), td("q", "y:s"), prefix="x", keyword="submodule", belongs_to="mod")], [("x", (11, 15)), ("y", (1, 5)), ("z", (31, 35)), ("q", (41, 45))], only=["mod"])
    numbers(ctx, lab, "submodule of a submodule", [M("mod", inc, leaf("x", "s"), leaf("y", "d"), prefix="m"), M("sub", S("include", "deep"), td("s", "d"), prefix="m", keyword="submodule", belongs_to="mod"), M("deep", td("d", rng(11, 15)), prefix="m", keyword="submodule", belongs_to="mod")], [("x", (11, 15)), ("y", (11, 15))], only=["mod"])
    numbers(ctx, lab, "submodule of an import", [M("mod", inc, td("t", "s"), prefix="m"), M("sub", td("s", rng(11, 15)), prefix="m", keyword="submodule", belongs_to="mod"), M("user", imp("mod", "q"), td("s", rng(1, 5)), leaf("x", "q:s"), leaf("y", "q:t"), leaf("z", "s"), prefix="m")], [("x", (11, 15)), ("y", (11, 15)), ("z", (1, 5))], only=["user"])


@rule("C24", "scopes", 20, limit=200)
def scopes(ctx):
    lab = ctx.lab()
    numbers(ctx, lab, "in containers", [M("mod", con("a", td("t", rng(1, 5)), leaf("x", "t")), con("b", td("t", rng(11, 15)), leaf("x", "t"), con("d", leaf("y", "t"))), con("c", con("a", td("t", rng(20, 25)), leaf("x", "t")), con("e", td("t", rng(31, 35)), td("u", "t"), leaf("x", "u"))))],
            [("a.x", (1, 5)), ("b.x", (11, 15)), ("b.d.y", (11, 15)), ("c.a.x", (20, 25)), ("c.e.x", (31, 35))], site=FIND)
    numbers(ctx, lab, "upon types of the module", [M("mod", con("a", td("t", typ("top", S("range", "1..5"))), leaf("x", "t")), con("b", td("t", typ("top", S("range", "11..15"))), td("u", typ("t", S("range", "12..15"))), leaf("x", "u"), leaf("y", "top")), td("top", rng(1, 26)))], [("a.x", (1, 5)), ("b.x", (12, 15)), ("b.y", (1, 26))], site=FIND)
    ch = S("choice", "ch", S("case", "c1", con("a", td("t", rng(1, 5)), leaf("x", "t"))), S("case", "c2", con("b", td("t", rng(11, 15)), td("s", "t"), leaf("x", "s"))))
    numbers(ctx, lab, "in cases", [M("mod", ch, con("k", ch))], [("a.x", (1, 5)), ("b.x", (11, 15)), ("k.a.x", (1, 5)), ("k.b.x", (11, 15))], site=FIND)
    with ctx.instance("in lists", FIND):
        li = lambda n, lo, hi: S("list", n, S("key", "k"), td("t", rng(lo, hi)), leaf("k", "t"), leaf("x", "t"))
        g = lab.bind('''
def t(n, v):
    m = mod()
    try:
        if n == "a":
            m.a.add(v)
        elif n == "b":
            m.b.add(v)
        else:
            m.a.add(3).x = v
    except (ValueError, KeyError):
        return False
    return True
''', M("mod", li("a", 1, 5), li("b", 11, 15)))
        for n, lo, hi in (("a", 1, 5), ("b", 11, 15), ("x", 1, 5)):
            sweep(ctx, lab, g, "in lists " + n, "t", {"n": C(n)}, [lo - 1, lo, hi, hi + 1], lambda x: lo <= x <= hi, FIND)
    rpc = lambda n, a, b: S("rpc", n, S("input", "input", td("t", rng(*a)), leaf("x", "t")), S("output", "output", td("t", rng(*b)), leaf("x", "t")))
    with ctx.instance("in rpcs and notifications", FIND):
        D = '''
def t(n, v):
    try:
        if n == "ri":
            yc_mod_mod__mod_rpc().r.input.x = v
        elif n == "ro":
            yc_mod_mod__mod_rpc().r.output.x = v
        elif n == "si":
            yc_mod_mod__mod_rpc().s.input.x = v
        elif n == "so":
            yc_mod_mod__mod_rpc().s.output.x = v
        else:
            yc_mod_mod__mod_notification().n.x = v
    except ValueError:
        return False
    return True
'''
        g = lab.bind(D, M("mod", rpc("r", (1, 5), (11, 15)), rpc("s", (20, 25), (31, 35)), S("notification", "n", td("t", rng(41, 45)), leaf("x", "t"))), build_rpcs=True, build_notifications=True)
        for n, lo, hi in (("ri", 1, 5), ("ro", 11, 15), ("si", 20, 25), ("so", 31, 35), ("n", 41, 45)):
            sweep(ctx, lab, g, "in rpcs and notifications " + n, "t", {"n": C(n)}, [lo - 1, lo, hi, hi + 1], lambda x: lo <= x <= hi, FIND)
    # types named like other things
    for n in ("container", "list", "rpc", "notification", "leaf", "integer", "identity", "str", "int", "self", "None", "object"):
        numbers(ctx, lab, "named " + n, [M("mod", td(n, rng(1, 5)), td("u", n), leaf("x", n), leaf("y", "u"), con("c", leaf("z", typ("u", S("range", "2..4")))))], [("x", (1, 5)), ("y", (1, 5)), ("c.z", (2, 4))], site=TYPE)


KINDS = {
    "range": (rng(5, 9), "int", [4, 5, 9, 10, -1]), "int64": (typ("int64"), "int", [0, 2**63 - 1, 2**63, -(2**63) - 1]),
    "pattern": (typ("string", S("pattern", "a+b")), "str", ["ab", "aab", "b", "abc", ""]), "length": (typ("string", S("length", "2..3")), "str", ["a", "ab", "abc", "abcd"]),
    "string": (typ("string"), "str", ["", "x", "é"]), "boolean": (typ("boolean"), "str", ["true", "false", "maybe", ""]),
    "enumeration": (typ("enumeration", S("enum", "on"), S("enum", "o f", S("value", "7"))), "str", ["on", "o f", "off", ""]),
    "identityref": (typ("identityref", S("base", "ib")), "str", ["i1", "m:i1", "mod:i1", "ib", "x"]),
    "union": (typ("union", rng(5, 9), typ("enumeration", S("enum", "on")), typ("boolean")), "str", ["on", "5", "4", "true", "x"]),
    "bits": (typ("bits", S("bit", "a"), S("bit", "b")), "str", ["a", "a b", "c", ""]),
    "binary": (typ("binary"), "str", ["YQ==", "YWI="]), "decimal64": (typ("decimal64", S("fraction-digits", "2")), "int", [0, 1, -5]),
    "leafref": (typ("leafref", S("path", "/k")), "str", ["x", ""]), "empty": (typ("empty"), "bool", [True, False]), "instance-identifier": (typ("instance-identifier"), "str", ["/a", ""]),
}


@rule("C24", "kinds", 15, limit=250)
def kinds(ctx):
    lab = ctx.lab()
    HEAD = [S("identity", "ib"), S("identity", "i1", S("base", "ib")), leaf("k", "string")]
    for kind, (t, given, reps) in KINDS.items():
        with ctx.instance(kind, TYPE):
            g = lab.bind('''
def put(n, v):
    m = mod()
    try:
        getattr(m, "_set_" + n)(v)
    except ValueError:
        return None
    return [str(getattr(m, n)), getattr(m, n)._yang_type == getattr(m, n)._yang_type, getattr(m, n)._changed()]
def all_(v):
    return [put("x", v), put("x1", v), put("x3", v)]
''', M("mod", *(HEAD + [td("t3", "t2"), td("t1", t), td("t2", "m:t1"), leaf("x", t), leaf("x1", "t1"), leaf("x3", "t3")]), prefix="m"))

            def judge(r, rep):
                if isinstance(r, Raised):
                    return None if r.name is None else False
                if not isinstance(r, list) or len(r) != 3:
                    return None
                return tri(same(r[1], r[0]), same(r[2], r[0]))

            for v in reps:
                run(ctx, lab, g, "%s %r" % (kind, v), "all_", {"v": C(v)}, judge, site=TYPE, what="leaf of the type, of a typedef and of a chain of three")
            if kind not in ("empty", "bits", "binary", "decimal64"):
                run(ctx, lab, g, "%s any value" % kind, "all_", {"v": given}, judge, vals(*reps), site=TYPE, what="leaf of the type, of a typedef and of a chain of three")


def tri(*xs):
    return False if any(x is False for x in xs) else True if all(x is True for x in xs) else None


@rule("C24", "defaults", 8, limit=200)
def defaults(ctx):
    lab = ctx.lab()
    imp = lambda m, p: S("import", m, S("prefix", p))
    A = M("alpha", td("t", rng(1, 5), "3"), td("u", "t"), prefix="p")
    B = M("mod", imp("alpha", "a"), td("t", rng(11, 15), "13"), td("u", "a:u"), td("v", "t", "14"), con("c", td("w", "t"), leaf("x", "w")), con("d", td("w", "a:t", "5"), leaf("x", "w")), leaf("x", "t"), leaf("y", "a:t"), leaf("z", "u"), leaf("w", "v"), leaf("q", "p:u"), prefix="p")
    with ctx.instance("defaults", SITE):
        g = lab.bind('''
def t():
    m = mod()
    return [int(x._default) for x in (m.x, m.y, m.z, m.w, m.q, m.c.x, m.d.x)]
''', A, B)
        run_each(ctx, lab, g, "t", {}, list(zip(["own", "of the import", "through both", "redefined", "own prefix", "in a container", "in another container"], [13, 3, 3, 14, 3, 13, 5])), site=SITE)
    with ctx.instance("paths", SITE):
        A = M("alpha", td("r", typ("leafref", S("path", "/m:k"))), prefix="m")
        g = lab.bind('''
import pyangbind.lib.xpathhelper as xh
def t():
    m = mod(path_helper=xh.YANGPathHelper())
    m.l.append("one")
    m.n.append("two")
    out = []
    for n in ("x", "y", "z"):
        for v in ("one", "two"):
            try:
                getattr(m, "_set_" + n)(v)
                out.append(n + v)
            except ValueError:
                pass
    return out
''', M("mod", td("r2", "r1"), td("r1", typ("leafref", S("path", "/l"))), con("c", td("r3", typ("leafref", S("path", "/n"))), leaf("v", "r3")), td("r3", "r1"), S("leaf-list", "l", typ("string")), S("leaf-list", "n", typ("string")), leaf("x", "r1"), leaf("y", "r2"), leaf("z", "r3")), use_xpathhelper=True)
        run(ctx, lab, g, "paths", "t", {}, ["xone", "yone", "zone"], site=SITE)


DEFS = [
    ("int8", typ("int8"), ["0", "5", "-7"]), ("range", rng(0, 9), ["0", "9"]), ("int64", typ("int64"), ["0", "-9223372036854775808"]), ("string", typ("string"), ["", "0", "False", "a b", " ", "None"]), ("length", typ("string", S("length", "0..3")), ["", "ab"]),
    ("pattern", typ("string", S("pattern", "[0a]*")), ["", "0"]), ("boolean", typ("boolean"), ["false", "true"]), ("enumeration", typ("enumeration", S("enum", "0"), S("enum", "on"), S("enum", "False")), ["0", "on", "False"]),
    ("bits", typ("bits", S("bit", "a"), S("bit", "b")), ["a", "b a"]), ("binary", typ("binary"), ["YQ==", ""]), ("decimal64", typ("decimal64", S("fraction-digits", "2")), ["0", "0.0", "-1.25"]), ("union", typ("union", rng(5, 9), typ("string")), ["", "5", "0"]),
    ("union of numbers", typ("union", rng(5, 9), typ("int8")), ["0", "5"]),
]


@rule("C24", "defaults-of-every-kind", 30, limit=300)
def kinds_of_defaults(ctx):
    """A typedef's default is the one that a leaf of the type itself has when it is given the same default."""
    lab = ctx.lab()
    drv = "def t():\n    m = mod()\n    return [[n for n in ('x1', 'x2', 'x3', 'x4') if not (str(getattr(m, n)) == str(m.x) and str(getattr(m, n).default()) == str(m.x.default()) and getattr(m, n)._changed() is m.x._changed())], str(m.y) == str(m.z)]\n"
    for kind, t, ds in DEFS:
        for d in ds:
            i = "%s %r" % (kind, d)
            with ctx.instance(i, TYPE):
                g = lab.bind(drv, M("mod", td("t3", "t2"), td("t1", t, d), td("t2", "t1"), td("u1", t), td("u2", "u1", d), td("u3", "t1", ds[-1]), leaf("x", t, S("default", d)), leaf("x1", "t1"), leaf("x2", "t3"), leaf("x3", "u2"), leaf("x4", "u1", S("default", d)), leaf("y", "u3"), leaf("z", t, S("default", ds[-1])), prefix="m"))
                run(ctx, lab, g, i, "t", {}, [[], True], site=TYPE, what="leaf with the default itself, of a typedef with it, of a chain of two more, of a typedef that adds it, and of one that replaces it")


@rule("C24", "references", 8, limit=200)
def references(ctx):
    """What a typedef says about a leafref - its path and whether the instance must be there - goes for every leaf of it."""
    lab = ctx.lab()
    drv = """
import pyangbind.lib.xpathhelper as xh
def t():
    m = mod(path_helper=xh.YANGPathHelper())
    m.k.append("here")
    out = []
    for n in ("x", "x1", "x2", "x3"):
        for v in ("here", "gone"):
            try:
                getattr(m, "_set_" + n)(v)
                out.append(v)
            except ValueError:
                out.append("no")
    return out
"""
    for path in ("/k", "../k", "/m:k", "../m:k"):
        for ri in (None, "true", "false"):
            ty = typ("leafref", S("path", path), *([S("require-instance", ri)] if ri else []))
            i = "%s, require-instance %s" % (path, ri or "left out")
            with ctx.instance(i, TYPE):
                g = lab.bind(drv, M("mod", td("t3", "t2"), td("t1", ty), td("t2", "m:t1"), S("leaf-list", "k", typ("string")), leaf("x", ty), leaf("x1", "t1"), leaf("x2", "t2"), leaf("x3", "t3"), prefix="m"), use_xpathhelper=True)
                run(ctx, lab, g, i, "t", {}, ["here", "gone" if ri == "false" else "no"] * 4, site=TYPE)


@rule("C24", "refusals", 8, limit=200)
def refusals(ctx):
    lab = ctx.lab()
    for inst, mods in [
        ("unknown type of a leaf", [M("mod", leaf("x", "nope"))]), ("unknown type of a typedef", [M("mod", td("t", "nope"), leaf("x", "t"))]), ("unknown type of an unused typedef", [M("mod", td("t", "nope"), leaf("x", "string"))]),
        ("unknown member of a union", [M("mod", td("t", typ("union", typ("int8"), typ("nope"))), leaf("x", "t"))]), ("unknown prefix", [M("mod", td("t", "zz:nope"), leaf("x", "t"))]), ("type of a module not imported", [M("alpha", td("t", "int8"), prefix="a"), M("mod", leaf("x", "a:t"))]),
        ("defined by itself", [M("mod", td("t", "t"), leaf("x", "t"))]), ("defined by each other", [M("mod", td("t", "u"), td("u", typ("union", typ("int8"), typ("t"))), leaf("x", "t"))]),
        ("type of another container", [M("mod", con("a", td("t", "int8"), leaf("y", "t")), con("b", leaf("x", "t")))]), ("unknown identity", [M("mod", td("t", typ("identityref", S("base", "nope"))), leaf("x", "t"))]), ("unknown base", [M("mod", S("identity", "a", S("base", "nope")), leaf("x", "string"))]),
    ]:
        with ctx.instance(inst, SITE):
            outs = lab.emit(*mods)
            bad = [v for _, v in outs if not isinstance(v, Raise)]
            ctx.check(inst, (not bad) if outs else None, "no code is emitted", "code is emitted although the schema has %s: %s" % (inst, ", ".join(show(m) for m in mods)[:300]), SITE)
