"""C26: the nearest default wins."""

from .common import *

explain("C26", "Leaves of every kind of type with and without a default of their own, over chains of type definitions of which several have defaults, are read without having been set; the driver is interpreted abstractly through the emitted code and the library, and the kind and text of the default it reports, and what it and its parents say about changes, are compared with the default statement nearest to the leaf.")

SITE = PB + "get_element"
ENUM = typ("enumeration", S("enum", "A"), S("enum", "B"), S("enum", "5"))
BITS = typ("bits", S("bit", "a"), S("bit", "b"), S("bit", "c"))
DEC = typ("decimal64", S("fraction-digits", "2"))


def df(x):
    return S("default", x)


def td(name, t, *d):
    return S("typedef", name, typ(t) if isinstance(t, str) else t, *[df(x) for x in d])


HEADS = [
    S("identity", "ib"), S("identity", "i1", S("base", "ib")), S("identity", "i2", S("base", "ib")),
    td("t1", typ("int8", S("range", "1..50")), "5"), td("t2", typ("t1", S("range", "2..40"))), td("t3", "t2", "7"), td("t4", "t3"), td("t5", typ("t4", S("range", "3..20"))), td("t6", "t5"),
    td("s1", typ("string", S("pattern", "a+"))), td("s2", "s1", "aa"), td("s3", typ("s2", S("length", "1..5"))), td("s4", "s3", "a"),
    td("b1", "boolean", "true"), td("b2", "b1"), td("b3", "b2", "false"),
    td("e1", ENUM, "B"), td("e2", "e1"), td("e3", "e2", "A"),
    td("d1", DEC, "1.5"), td("d2", "d1"),
    td("id1", typ("identityref", S("base", "ib")), "i1"), td("id2", "id1"),
    td("bi1", BITS, "c a"), td("bi2", "bi1"),
    td("bin1", "binary", "YQ=="), td("bin2", typ("bin1", S("length", "1..3"))),
    td("u1", typ("union", typ("uint8"), typ("s1")), "aaa"), td("u2", "u1"), td("u3", "u2", "9"),
    td("z1", "uint8", "0"), td("z2", "z1", "3"), td("es1", "string", ""), td("n1", "uint16"), td("n2", typ("n1", S("range", "0..9"))),
    td("lr1", typ("leafref", S("path", "/q")), "qq"), td("i64", "int64", "9223372036854775807"),
]
UN = lambda *a: typ("union", *[typ(x) if isinstance(x, str) else x for x in a])
# type, own default or None, (kind, text) or None
L = [
    ("int8", None, None), ("int8", "5", ("int", "5")), ("int8", "0", ("int", "0")), ("uint64", "18446744073709551615", ("int", "18446744073709551615")), ("int32", "-7", ("int", "-7")),
    ("string", None, None), ("string", "x", ("str", "x")), ("string", "", ("str", "")), ("string", "5", ("str", "5")), ("string", "a b", ("str", "a b")),
    (typ("string", S("length", "1..3")), "abc", ("str", "abc")), (typ("int16", S("range", "1..3")), "2", ("int", "2")), (typ("int16", S("range", "1..3")), None, None),
    ("boolean", "true", ("int", "True")), ("boolean", "false", ("int", "False")), ("boolean", None, None),
    (ENUM, "A", ("str", "A")), (ENUM, "5", ("str", "5")), (ENUM, None, None), (BITS, "b", ("bits", "b")), (BITS, "c a", ("bits", "a c")), (BITS, None, None), (DEC, "2.5", ("dec", "2.5")), (DEC, "-0.25", ("dec", "-0.25")),
    (DEC, "0.0", ("dec", "0.0")), (DEC, "1.1", ("dec", "1.1")), ("binary", "YWI=", ("bytes", "ab")), (typ("identityref", S("base", "ib")), "i2", ("str", "i2")), (typ("leafref", S("path", "/q")), "zz", ("str", "zz")),
    ("t1", None, ("int", "5")), ("t1", "6", ("int", "6")), ("t2", None, ("int", "5")), ("t2", "9", ("int", "9")), ("t3", None, ("int", "7")), ("t3", "8", ("int", "8")), ("t4", None, ("int", "7")), ("t4", "10", ("int", "10")),
    ("t5", None, ("int", "7")), ("t6", None, ("int", "7")), ("t6", "11", ("int", "11")), (typ("t4", S("range", "6..8")), None, ("int", "7")), (typ("t1", S("range", "4..8")), None, ("int", "5")), (typ("t3", S("range", "6..8")), "6", ("int", "6")),
    ("s1", None, None), ("s1", "aaa", ("str", "aaa")), ("s2", None, ("str", "aa")), ("s2", "a", ("str", "a")), ("s3", None, ("str", "aa")), ("s3", "aaaa", ("str", "aaaa")), ("s4", None, ("str", "a")), (typ("s2", S("length", "2")), None, ("str", "aa")),
    ("b1", None, ("int", "True")), ("b1", "false", ("int", "False")), ("b2", None, ("int", "True")), ("b2", "false", ("int", "False")), ("b3", None, ("int", "False")), ("b3", "true", ("int", "True")),
    ("e1", None, ("str", "B")), ("e1", "A", ("str", "A")), ("e2", None, ("str", "B")), ("e2", "5", ("str", "5")), ("e3", None, ("str", "A")),
    ("d1", None, ("dec", "1.5")), ("d1", "2.5", ("dec", "2.5")), ("d2", None, ("dec", "1.5")), ("d2", "3.5", ("dec", "3.5")),
    ("id1", None, ("str", "i1")), ("id1", "i2", ("str", "i2")), ("id2", None, ("str", "i1")),
    ("bi1", None, ("bits", "a c")), ("bi1", "b", ("bits", "b")), ("bi2", None, ("bits", "a c")), ("bin1", None, ("bytes", "a")), ("bin1", "YWI=", ("bytes", "ab")), ("bin2", None, ("bytes", "a")),
    ("u1", None, ("str", "aaa")), ("u1", "5", ("int", "5")), ("u1", "a", ("str", "a")), ("u2", None, ("str", "aaa")), ("u2", "6", ("int", "6")), ("u3", None, ("int", "9")), ("u3", "aa", ("str", "aa")),
    ("z1", None, ("int", "0")), ("z1", "4", ("int", "4")), ("z2", None, ("int", "3")), ("z2", "0", ("int", "0")), ("es1", None, ("str", "")), ("es1", "x", ("str", "x")), ("n1", None, None), ("n2", None, None), ("n2", "0", ("int", "0")), ("n2", "9", ("int", "9")),
    ("lr1", None, ("str", "qq")), ("lr1", "rr", ("str", "rr")), ("i64", None, ("int", "9223372036854775807")),
    (UN("int8", ENUM), "A", ("str", "A")), (UN("int8", ENUM), "5", ("int", "5")), (UN(ENUM, "int8"), "6", ("int", "6")), (UN(ENUM, "int8"), "5", ("str", "5")), (UN("int8", "string"), "300", ("str", "300")), (UN("int8", "string"), "-128", ("int", "-128")),
    (UN(typ("int8", S("range", "1..5")), "string"), "7", ("str", "7")), (UN(typ("int8", S("range", "1..5")), "string"), "5", ("int", "5")), (UN(typ("string", S("pattern", "a+")), "int8"), "4", ("int", "4")), (UN(typ("string", S("length", "2")), "int8"), "4", ("int", "4")),
    (UN("string", "int8"), "4", ("str", "4")), (UN("boolean", "int8"), "4", ("int", "4")), (UN("int8", "boolean"), "true", ("int", "True")), (UN(DEC, "string"), "1.5", ("dec", "1.5")), (UN(DEC, "string"), "x", ("str", "x")),
    (UN("int8", "int16", "uint32"), "300", ("int", "300")), (UN("s1", "n2"), "8", ("int", "8")), (UN("s1", "n2"), "a", ("str", "a")), (UN("n2", "n1"), "12", ("int", "12")), (UN("u1", "boolean"), "true", ("int", "True")), (UN("u1", "boolean"), "aa", ("str", "aa")),
    (UN(BITS, "string"), "b a", ("bits", "a b")), (UN(BITS, "string"), "b x", ("str", "b x")), (UN("bi1", "int8"), "5", ("int", "5")), (UN("int8", "bi1"), "b", ("bits", "b")), (UN(UN("n2", "b1"), "string"), "10", ("str", "10")), (UN(UN("n2", "b1"), "string"), "9", ("int", "9")),
    (UN("int8", typ("identityref", S("base", "ib"))), "i2", ("str", "i2")), (UN(typ("identityref", S("base", "ib")), "string"), "ib", ("str", "ib")), (UN("e1", "int8"), "7", ("int", "7")), (UN("e1", "int8"), "B", ("str", "B")), (UN("int8", "string"), None, None), (UN("string", "int8"), "", ("str", "")), (UN("int8", "string"), "", ("str", "")),
]
D = '''
from decimal import Decimal
def kind(x):
    if x is None or x is False:
        return None
    if isinstance(x, int):
        return "int"
    if isinstance(x, str):
        return "str"
    if isinstance(x, bytes):
        return "bytes"
    if isinstance(x, Decimal):
        return "dec"
    if isinstance(x, set):
        return "bits"
    return "?"
def text(x):
    if kind(x) == "bytes":
        return "".join([chr(i) for i in x])
    return str(x) if kind(x) else None
'''
D1 = '''
def unset():
    m = mod()
    x = m.c.l
    y = m.l
    f = m.c.get(filter=True)
    d = m.c.get(filter=False)["l"]
    return (kind(y.default()), text(y.default())), (kind(x.default()), text(x.default())), x._changed(), m.c._changed(), f, kind(d), text(d)
def after_reset():
    m = mod()
    m.c._unset_l()
    x = m.c.l
    return kind(x.default()), text(x.default()), x._changed(), m.c._changed()
'''
D3 = '''
def entry():
    m = mod()
    m.k.add("e")
    x = m.k["e"].l
    return kind(x.default()), text(x.default()), x._changed()
'''
D2 = '''
def assigned():
    m = mod()
    m.c.l = "{v}"
    x = m.c.l
    return kind(x.default()), text(x.default()), x._changed(), m.c._changed(), text(m.c.get(filter=False)["l"]) == text(m.c.l)
'''


def name(t):
    if isinstance(t, str):
        return t
    kw, arg, subs = t[0], t[1], t[2]
    return arg + ("(" + ", ".join(name(s) for s in subs) + ")" if arg == "union" and subs else "[%s]" % " ".join("%s %s" % (s[0], s[1]) for s in subs) if subs else "")


def needed(*ts):
    out = []

    def add(t):
        if isinstance(t, str):
            for h in HEADS:
                if h[1] == t and h[0] == "typedef" and h not in out:
                    add(h[2][0])
                    out.append(h)
        elif t[1] == "identityref":
            for h in HEADS:
                if h[0] == "identity" and h not in out:
                    out.append(h)
        else:
            add(t[1])
            for s in t[2]:
                if s[0] == "type":
                    add(s)

    for t in ts:
        add(t)
    return out


def check(ctx, t, d, w, mods=None, what="", entry=True, **opts):
    lab = ctx.lab()
    i = "%s%s%s" % (name(t), "" if d is None else " default %r" % d, what)
    ty = typ(t) if isinstance(t, str) else t
    ds = [df(d)] if d is not None else []
    body = [leaf("l", ty, *ds), S("container", "c", leaf("l", ty, *ds)), leaf("q", "string")] + ([S("list", "k", S("key", "n"), leaf("n", "string"), leaf("l", ty, *ds))] if entry else [])
    val = w[1] if w and w[0] != "bytes" else None
    try:
        g = lab.bind(D + D1 + (D3 if entry else "") + (D2.format(v=val) if val is not None else ""), *(mods(body) if mods else [M("mod", *(needed(t) + body), prefix="m")]), **opts)
    except (AnalysisBroken, AnalysisLimit, Undecided) as e:
        return ctx.und(i, str(e)[:200])
    site = lab.site(SITE)
    w2 = w or (None, None)
    dump = w2 if w else (ANY, ANY)
    run(ctx, lab, g, i, "unset", {}, (w2, w2, False, False, {}) + dump, ({},), site)
    run(ctx, lab, g, i + " after a reset", "after_reset", {}, w2 + (False, False), ({},), site)
    if entry:
        run(ctx, lab, g, i + " in a list entry", "entry", {}, w2 + (False,), ({},), site)
    if val is not None and not opts:
        run(ctx, lab, g, i + " once set", "assigned", {}, w2 + (True, True, True), ({},), site)


@rule("C26", "nearest-default", minimum=300, limit=600)
def nearest(ctx):
    for n, (t, d, w) in enumerate(L):
        check(ctx, t, d, w, entry=not n % 4)


@rule("C26", "across-modules", minimum=10, limit=200)
def across(ctx):
    for t, d, w in [("x:t4", None, ("int", "7")), ("x:t4", "9", ("int", "9")), ("x:u2", None, ("str", "aaa")), ("x:u2", "9", ("int", "9")), ("x:own", None, ("int", "3")), ("own", None, ("int", "4")), ("own", "5", ("int", "5")), ("o2", None, ("int", "3"))]:
        other = M("other", *(needed("t4", "u2") + [td("own", "int8", "3")]), prefix="o")
        check(ctx, t, d, w, mods=lambda body: [M("mod", S("import", "other", S("prefix", "x")), td("own", "int8", "4"), td("o2", "x:own"), *body, prefix="m"), other], what=" with typedefs of another module", only=["mod"])


@rule("C26", "leafref-with-path-helper", minimum=8, limit=100)
def leafref(ctx):
    for t, d, w in [(typ("leafref", S("path", "/q")), "zz", ("str", "zz")), ("lr1", None, ("str", "qq")), ("lr1", "rr", ("str", "rr")), (typ("leafref", S("path", "/q")), None, None)]:
        check(ctx, t, d, w, what=" generated for a path helper", use_xpathhelper=True)
