"""C31: decoding what was encoded yields an equal tree."""

from .common import *
from .c10 import HEAD, T_, UN, conc, strict
from .c11 import ITEMS, MOD, SMALL, clash, nest

explain("C31", "Trees built by histories of changes, and values of every type at every position (leaf, derived type, union member, leaf-list, list entry, list key, symbolic texts and numbers among them), are encoded and the document is decoded into fresh bindings by the decoder of the same mode; all of it is interpreted abstractly (documents stay trees, the text layer of json and lxml is assumed faithful), and what the new tree holds is compared with what the original holds.")

LOADJ = SER + "pybindJSONDecoder.load_json"
LOADI = SER + "pybindJSONDecoder.load_ietf_json"
LOADX = SER + "pybindIETFXMLDecoder.load_xml"
SITES = {"json": LOADJ, "ietf": LOADI, "xml": LOADX}

LOADS = (
    HEAD
    + '''
from pyangbind.lib.serialise import pybindJSONDecoder, pybindIETFXMLDecoder
def lj(d, m, **kw):
    return pybindJSONDecoder.load_json(d, None, None, obj=m, **kw)
def li(d, m, **kw):
    return pybindJSONDecoder.load_ietf_json(d, None, None, obj=m, **kw)
def lx(d, m, **kw):
    return pybindIETFXMLDecoder.load_xml(d, None, None, obj=m, **kw)
def rt_json(m, n):
    return lj(pbj.dumps(m), n)
def rt_ietf(m, n):
    return li(pbj.dumps(m, mode="ietf"), n)
def rt_xml(m, n):
    return lx(pybindIETFXMLEncoder.encode(m), n)
def attempt(f, *a, **kw):
    try:
        return f(*a, **kw)
    except Exception as e:
        return "raises"
'''
)
MODES = ("json", "ietf", "xml")


def histories(name, combos, **kw):
    @rule("C31", name, 1, **kw)
    def _(ctx):
        lab = ctx.lab()
        out = [LOADS]
        for i, its in enumerate(combos):
            out.append("def f_%d():\n    m = mod()\n    %s\n    r = []\n    for rt in (rt_json, rt_ietf, rt_xml):\n        n = mod()\n        attempt(rt, m, n)\n        r.append(pbj.dumps(n))\n    return r\n" % (i, "\n    ".join(x[1] for x in its)))
        g = lab.bind("\n".join(out), MOD, generate_presence=True)
        for i, its in enumerate(combos):
            paths = {}
            for x in its:
                paths.update(x[2])
            n = " then ".join(x[0] for x in its) or "nothing"
            w = strict(nest(paths, False))
            for j, mode in enumerate(MODES):
                pass
            run_each(ctx, lab, g, "f_%d" % i, {}, [("%s %s" % (n, mode), w) for mode in MODES], LOADI)


histories("single-changes", [[]] + [[x] for x in ITEMS], limit=250)
small = [x for x in ITEMS if x[0] in SMALL]
PAIRS = [[a, b] for a in small for b in small if a is not b and not clash(a[0], b[0])]
histories("pairs-of-changes", PAIRS[1::9], limit=250)
histories("pairs-of-changes-all", PAIRS, tier="thorough", limit=500)
BIG = [x for x in ITEMS if x[0] in ("a", "d-zero", "b-default", "ll", "cx", "cdz", "cey", "pe-present", "p-below", "cl", "l-v", "l-w", "l-ic", "l-il", "two", "ch-b", "em")]
histories("many-changes", [BIG, BIG[::-1], [x for x in ITEMS if x[0] in ("p-present", "pe-present", "l-deleted", "l-ip", "ll-emptied", "ce-unset")]])

POS = [("leaf", "lf"), ("derived", "td"), ("union", "un"), ("leaf-list", "ll"), ("entry", None), ("key", None), ("second key", None)]


def types(name, names):
    @rule("C31", name, 1, limit=250)
    def _(ctx):
        lab = ctx.lab()
        for t in T_:
            if t[0] not in names:
                continue
            ty = t[1]
            ident = [S("identity", "ib"), S("identity", "i1", S("base", "ib"))]
            md = M("mod", *ident, S("typedef", "ta", ty), leaf("lf", ty), leaf("td", "ta"), leaf("un", UN(typ("uint16", S("range", "64001..64009")), ty)), S("leaf-list", "ll", ty), S("leaf-list", "lt", typ("ta")), S("container", "c", leaf("in", "ta")),
                   S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", ty)), S("list", "lk", S("key", "k"), leaf("k", ty), leaf("v", "string")), S("list", "l2", S("key", "j k"), leaf("j", "string"), leaf("k", "ta"), leaf("v", "string")))
            drv = [LOADS, '''
def seen(n):
    return [(n.lf == "" or n.lf, n.td, n.un), [x for x in n.ll], [x for x in n.lt], n.c.in_, [(k, n.l[k].v) for k in n.l], [(n.lk[k].k, n.lk[k].v) for k in n.lk], [(n.l2[k].j, n.l2[k].k, n.l2[k].v) for k in n.l2]]
''']
            for j, val in enumerate(t[3]):
                e = val[0]
                for mode in MODES:
                    drv.append('''
def f_%d_%s():
    m = mod()
    m.lf = %s
    m.td = %s
    m.un = %s
    m.ll.append(%s)
    m.lt.append(%s)
    m.c.in_ = %s
    m.l.add("e").v = %s
    n = mod()
    r = attempt(rt_%s, m, n)
    if r == "raises":
        return "raises"
    return [n.lf == m.lf, n.td == m.td, n.un == m.un, len(n.ll) == 1 and n.ll[0] == m.ll[0], len(n.lt) == 1 and n.lt[0] == m.lt[0], n.c.in_ == m.c.in_, len(n.l) == 1 and n.l["e"].v == m.l["e"].v, type(n.lf) == type(m.lf) or True]
def g_%d_%s():
    m = mod()
    a = m.lk.add(%s)
    a.v = "q"
    b = m.l2.add(j="x", k=%s)
    b.v = "r"
    n = mod()
    r = attempt(rt_%s, m, n)
    if r == "raises":
        return "raises"
    x = [n.lk[k] for k in n.lk]
    y = [n.l2[k] for k in n.l2]
    return [len(x) == 1 and x[0].k == a.k and x[0].v == "q", len(y) == 1 and y[0].j == "x" and y[0].k == b.k and y[0].v == "r"]
''' % (j, mode, e, e, e, e, e, e, e, mode, j, mode, e, e, mode))
            g = lab.bind("\n".join(drv), md)
            for j, val in enumerate(t[3]):
                for mode in MODES:
                    run(ctx, lab, g, "%s %s %s" % (t[0], val[0], mode), "f_%d_%s" % (j, mode), {}, [True] * 8, site=SITES[mode])
                    run(ctx, lab, g, "%s %s as key %s" % (t[0], val[0], mode), "g_%d_%s" % (j, mode), {}, [True] * 2, site=SITES[mode])


NAMES = [t[0] for t in T_]
types("types-1", NAMES[::2])
types("types-2", NAMES[1::2])


SYM = M("mod", leaf("s", "string"), leaf("n", "int8"), leaf("w", "int64"), leaf("b", "boolean"), S("leaf-list", "ll", typ("string")), S("container", "c", leaf("s", "string"), S("container", "d", leaf("n", "uint16"))),
        S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), S("list", "i", S("key", "j"), leaf("j", "int8"), leaf("v", "string"))), S("list", "l2", S("key", "a b"), leaf("a", "string"), leaf("b", "int8"), leaf("v", "string")))


@rule("C31", "any-value", 10, limit=200)
def symbolic(ctx):
    """Texts and numbers that are not known: whatever they are, they come back."""
    lab = ctx.lab()
    fns = [
        ("text", {"v": "str"}, "m.s = v\n    m.c.s = v", "n.s == v and n.c.s == v"),
        ("number", {"v": "int"}, "m.n = v", "n.n == m.n"),
        ("64-bit number", {"v": "int"}, "m.w = v", "n.w == m.w"),
        ("nested number", {"v": "int"}, "m.c.d.n = v", "n.c.d.n == m.c.d.n"),
        ("truth value", {"v": "bool"}, "m.b = v", "n.b == m.b"),
        ("leaf-list", {"v": "str"}, "m.ll.append(v)\n    m.ll.append('x' + v)", "len(n.ll) == 2 and n.ll[0] == v and n.ll[1] == 'x' + v"),
        ("leaf of an entry", {"v": "str"}, "m.l.add('k').v = v", "len(n.l) == 1 and n.l['k'].v == v"),
        ("leaf of an inner entry", {"v": "str"}, "m.l.add('k').i.add(3).v = v", "len(n.l) == 1 and [n.l['k'].i[j].v for j in n.l['k'].i] == [v]"),
    ]
    out = [LOADS]
    for i, (n, given, put, cond) in enumerate(fns):
        for mode in MODES:
            out.append("def f_%d_%s(v):\n    m = mod()\n    try:\n        %s\n    except ValueError:\n        return True\n    n = mod()\n    r = attempt(rt_%s, m, n)\n    if r == 'raises':\n        return r\n    return %s\n" % (i, mode, put.replace("\n    ", "\n        "), mode, cond))
    out.append("def k_json(v):\n    m = mod()\n    m.l.add('x' + v).v = 'q'\n    n = mod()\n    r = attempt(rt_json, m, n)\n    if r == 'raises':\n        return r\n    return [n.l[k].k for k in n.l] == ['x' + v]\n")
    out.append("def k_ietf(v):\n    m = mod()\n    m.l.add('x' + v).v = 'q'\n    n = mod()\n    r = attempt(rt_ietf, m, n)\n    if r == 'raises':\n        return r\n    return [n.l[k].k for k in n.l] == ['x' + v]\n")
    out.append("def k_xml(v):\n    m = mod()\n    m.l.add('x' + v).v = 'q'\n    n = mod()\n    r = attempt(rt_xml, m, n)\n    if r == 'raises':\n        return r\n    return [n.l[k].k for k in n.l] == ['x' + v]\n")
    g = lab.bind("\n".join(out), SYM)
    texts = [{"v": x} for x in ("", "a", "05", "1.50", "true", "None", " a b ", "0x1f", "a:b", "mod:x", "[x]", "@")]
    reps = {"str": texts, "int": [{"v": x} for x in (0, 1, -1, 127, -128, 200, 9007199254740993, 2 ** 63 - 1)], "bool": [{"v": True}, {"v": False}]}
    for i, (n, given, put, cond) in enumerate(fns):
        for mode in MODES:
            run(ctx, lab, g, "%s %s" % (n, mode), "f_%d_%s" % (i, mode), given, True, site=SITES[mode], reps=reps[given["v"]], universal=True)
    for mode in MODES:
        run(ctx, lab, g, "key %s" % mode, "k_%s" % mode, {"v": "str"}, True, site=SITES[mode], reps=texts, universal=True)


@rule("C31", "names-and-modules", 8, limit=200)
def names(ctx):
    """Names that need mapping, nodes of other modules, user-ordered and keyless lists, choices, presence."""
    lab = ctx.lab()
    other = M("other", S("identity", "ib"), S("identity", "i1", S("base", "ib")), S("identity", "i2", S("base", "i1")), prefix="op")
    md = M("mod", S("import", "other", S("prefix", "x")), leaf("class", "string"), leaf("a-b.c", "string"), leaf("idr", typ("identityref", S("base", "x:ib"))), S("typedef", "idt", typ("identityref", S("base", "x:ib"))), leaf("idd", "idt"), S("leaf-list", "idl", typ("idt")),
           S("container", "for", leaf("in-out", "string"), S("leaf-list", "try", typ("int8")), S("leaf", "aug", typ("string"), aug="other"), S("container", "augc", leaf("x-y", "string"), aug="other")),
           S("list", "while", S("key", "is not-it"), leaf("is", "string"), leaf("not-it", "string"), leaf("or", "string"), S("leaf", "auge", typ("string"), aug="other")),
           S("list", "u", S("key", "k"), S("ordered-by", "user"), leaf("k", "string"), leaf("v", "int8")), S("list", "st", S("config", "false"), leaf("v", "string")),
           S("choice", "ch", S("case", "x", leaf("cx", "string")), S("case", "y", S("list", "cl", S("key", "k"), leaf("k", "int8"), leaf("v", "string")))), S("container", "pres", S("presence", "p"), leaf("q", "string")))
    FN = [
        ("reserved names", "m.class_ = 'c'; m.a_b_c = 'd'; m.for_.in_out = 'e'; m.for_.try_ = [1, 2]", "(n.class_, n.a_b_c, n.for_.in_out, [x for x in n.for_.try_])", ("c", "d", "e", [1, 2])),
        ("reserved names of keys", "m.while_.add(is_='a', not_it='b').or_ = 'x'", "[(n.while_[k].is_, n.while_[k].not_it, n.while_[k].or_) for k in n.while_]", [("a", "b", "x")]),
        ("augmenting leaves", "m.for_.aug = 'v'; m.for_.augc.x_y = 'w'; m.while_.add('a b').auge = 'u'", "(n.for_.aug, n.for_.augc.x_y, n.while_['a b'].auge)", ("v", "w", "u")),
        ("identities", "m.idr = 'i1'; m.idd = 'i2'; m.idl.append('i1'); m.idl.append('i2')", "tuple([x.split(':')[-1] for x in (n.idr, n.idd, n.idl[0], n.idl[1])])", ("i1", "i2", "i1", "i2")),
        ("qualified identities", "m.idr = 'other:i1'; m.idd = 'x:i2'; m.idl.append('other:i1')", "tuple([x.split(':')[-1] for x in (n.idr, n.idd, n.idl[0])])", ("i1", "i2", "i1")),
        ("user order", "m.u.add('z').v = 1; m.u.add('a').v = 2; m.u.add('m').v = 3", "[(k, n.u[k].v) for k in n.u]", [("z", 1), ("a", 2), ("m", 3)]),
        ("choice", "m.cl.add(4).v = 'q'; m.cl.add(2).v = 'r'", "[(n.cl[k].k, n.cl[k].v) for k in n.cl]", [(4, "q"), (2, "r")]),
        ("presence", "m.pres._set_present()", "(n.pres._present(), n.pres._changed())", (True, True)),
        ("presence below", "m.pres.q = 'x'", "(n.pres._present(), n.pres.q)", (True, "x")),
    ]
    out = [LOADS]
    for i, (n, put, get, w) in enumerate(FN):
        for mode in MODES:
            out.append("def f_%d_%s():\n    m = mod()\n    %s\n    n = mod()\n    r = attempt(rt_%s, m, n)\n    if r == 'raises':\n        return r\n    return %s\n" % (i, mode, put, mode, get))
    for mode in ("json", "ietf"):
        out.append("def st_%s():\n    m = mod()\n    m.st[m.st.add()]._set_v('a')\n    m.st[m.st.add()]._set_v('b')\n    n = mod()\n    r = attempt(rt_%s, m, n)\n    if r == 'raises':\n        return r\n    return [n.st[k].v for k in n.st]\n" % (mode, mode))
    g = lab.bind("\n".join(out), other, md, only=["mod"], generate_presence=True)
    for i, (n, put, get, w) in enumerate(FN):
        for mode in MODES:
            run(ctx, lab, g, "%s %s" % (n, mode), "f_%d_%s" % (i, mode), {}, w, site=SITES[mode])
    for mode in ("json", "ietf"):
        run(ctx, lab, g, "list without keys %s" % mode, "st_%s" % mode, {}, ["a", "b"], site=SITES[mode])
