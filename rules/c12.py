"""C12: IETF names carry a module prefix exactly where the namespace changes."""

from .common import *
from .c10 import HEAD, strict, conc

explain("C12", "Trees in which nodes of every kind, at every level and inside list entries, are put in place by augments of other modules (and of the module above, so that the namespace changes back) are filled and encoded as IETF JSON and as XML by drivers interpreted abstractly through the emitted code and the library; the wanted member names are computed from the skeleton: prefixed exactly where the module differs from that of the parent element. Identity values of the leaf's own and of other modules, given plainly or under every prefix, in leaves, derived types, unions, leaf-lists, list entries and defaults, are compared with the name and the namespace binding prescribed.")

NS = SER + "make_generate_ietf_tree"
IDS = SER + "IETFYangDataSerialiser.yangt_identityref"
OTHERS = (M("other", S("leaf", "unused", typ("string")), prefix="o"), M("third", S("leaf", "unused3", typ("string")), prefix="t"))


def lf(n, aug=None, kw="leaf"):
    return S(kw, n, typ("string"), **({"aug": aug} if aug else {}))


def con(n, *kids, **kw):
    return S("container", n, *kids, **kw)


def lst(n, *kids, **kw):
    return S("list", n, S("key", "k"), S("leaf", "k", typ("string")), *kids, **kw)


def fill(kids, at, mod, parent, form, stmts, depth=0):
    """Statements that set every node, and the document wanted."""
    doc = {} if form == "ietf" else []

    def put(n, own, v):
        if form == "ietf":
            doc[n if own == parent else own + ":" + n] = v
        else:
            doc.append([own, n, v])

    for s in kids:
        kw, n, subs, attrs = s
        own = attrs.get("aug", mod)
        p = pyname(n)
        if kw == "leaf":
            if n != "k":
                stmts.append("%s.%s = 'v-%s'" % (at, p, n))
            put(n, own, "v-" + n if n != "k" else "key")
        elif kw == "leaf-list":
            stmts.append("%s.%s = ['w-%s']" % (at, p, n))
            put(n, own, ["w-" + n] if form == "ietf" else "w-" + n)
        elif kw == "container":
            put(n, own, fill(subs, "%s.%s" % (at, p), own, own, form, stmts))
        elif kw == "list":
            v = "e%d" % len(stmts)
            stmts.append("%s = %s.%s.add('key')" % (v, at, p))
            e = fill(subs, v, own, own, form, stmts)
            put(n, own, [e] if form == "ietf" else e)
        elif kw == "choice":
            c = subs[0]
            d = fill(c[2], at, c[3].get("aug", own), parent, form, stmts)
            if form == "ietf":
                doc.update(d)
            else:
                doc.extend(d)
    return doc


DX = '''
def tree(e):
    if e.getchildren():
        return [[k.tag.split("}")[0][5:], k.tag.split("}")[1], tree(k)] for k in e.getchildren()]
    return e.text
def xtree(m):
    d = pybindIETFXMLEncoder.encode(m)
    return [d.tag, tree(d)]
'''


def make(name, kids):
    @rule("C12", "names-" + name, 1, limit=200)
    def _(ctx):
        lab = ctx.lab()
        out = [HEAD, DX]
        want = {}
        for form in ("ietf", "xml"):
            st = []
            want[form] = fill(kids, "m", "mod", None, form, st)
            body = "def fill_%s():\n    m = mod()\n    %s\n    return m\n" % (form, "\n    ".join(st))
            out.append(body)
        out.append("def t_ietf():\n    return pbj.dumps(fill_ietf(), mode='ietf')\n")
        out.append("def t_xml():\n    return xtree(fill_xml())\n")
        g = lab.bind("\n".join(out), *OTHERS, M("mod", *kids), only=["mod"])
        run(ctx, lab, g, name + " ietf", "t_ietf", {}, strict(want["ietf"]), site=NS)
        run(ctx, lab, g, name + " xml", "t_xml", {}, strict(["{urn:mod}mod", want["xml"]]), site=SER + "pybindIETFXMLEncoder.yname_ns_func")


MODS = ("mod", "other", "third")
for i, a in enumerate(MODS):
    aug = {} if a == "mod" else {"aug": a}
    for j, b in enumerate(MODS):
        inner = [S("leaf", "d%d" % k, typ("string"), aug=c) for k, c in enumerate(MODS)] + [S("leaf-list", "m%d" % k, typ("string"), aug=c) for k, c in enumerate(MODS)]
        make("%s-%s" % (a, b), [lf("plain"), con("co", con("cc", *inner, aug=b), lst("cl", *inner, aug=b), lf("after"), **aug), lst("li", con("lc", *inner, aug=b), lst("ll", *inner, aug=b), lf("afterl"), **aug), S("leaf", "last", typ("string"), **aug)])
make("choice", [S("choice", "ch", S("case", "ca", lf("inc"), lf("inco", "other"), con("incc", lf("inccl", "third"), lf("own")))), con("c", S("choice", "ch2", S("case", "ca2", lf("o2", "other"), lf("p2"))))])
make("deep", [con("b", con("c", lst("d", con("e", lf("x"), lf("y", "other"), lst("f", lf("z"), lf("w", "mod"), aug="other")))))])


# parts of the tree dumped on their own
@rule("C12", "parts", 3)
def parts(ctx):
    lab = ctx.lab()
    m = M("mod", con("c", lf("x"), lf("y", "other"), lst("l", lf("v"), lf("o", "other")), lst("ol", lf("v2"), lf("m2", "mod"), aug="other")))
    g = lab.bind(HEAD + '''
from pyangbind.lib.serialise import pybindIETFJSONEncoder, IETFYangDataSerialiser
def mk():
    m = mod()
    m.c.x = "1"; m.c.y = "2"
    e = m.c.l.add("a"); e.v = "3"; e.o = "4"
    e = m.c.ol.add("b"); e.v2 = "5"; e.m2 = "6"
    return m
def con():
    return pbj.dumps(mk().c, mode="ietf")
def ent():
    return pbj.dumps(mk().c.l["a"], mode="ietf")
def lis():
    return pbj.dumps(mk().c.ol, mode="ietf")
def below(ns):
    return IETFYangDataSerialiser().preprocess_element(pybindIETFJSONEncoder.generate_element(mk().c, parent_namespace=ns, flt=True))
def same():
    return below("urn:mod")
def foreign():
    return below("urn:other")
''', *OTHERS, m, only=["mod"])
    full = lambda a, b, **kw: dict({a + "x": "1", b + "y": "2", a + "l": [{"k": "a", "v": "3", "other:o": "4"}], b + "ol": [{"k": "b", "v2": "5", "mod:m2": "6"}]}, **kw)
    run(ctx, lab, g, "a container by itself", "con", {}, strict(full("mod:", "other:")), site=NS)
    run(ctx, lab, g, "a container below its own namespace", "same", {}, strict(full("", "other:")), site=NS)
    run(ctx, lab, g, "a container below another namespace", "foreign", {}, strict(full("mod:", "")), site=NS)
    run(ctx, lab, g, "a list entry by itself", "ent", {}, strict({"mod:k": "a", "mod:v": "3", "other:o": "4"}), site=NS)
    run(ctx, lab, g, "a list by itself", "lis", {}, strict([{"other:k": "b", "other:v2": "5", "mod:m2": "6"}]), site=NS)


IDREF = typ("identityref", S("base", "o:ob"))
IMODS = (
    M("other", S("identity", "ob"), S("identity", "o1", S("base", "ob")), S("identity", "other-x", S("base", "ob")), S("identity", "otherwise", S("base", "o1")), prefix="o"),
    M("mod", S("import", "other", S("prefix", "o")), S("identity", "i1", S("base", "o:ob")), S("identity", "mod-y", S("base", "i1")), S("identity", "modern", S("base", "o:o1")),
      S("typedef", "ta", IDREF), S("typedef", "tb", typ("ta")), leaf("direct", IDREF), leaf("typedef", "ta"), leaf("typedef2", "tb"), leaf("union", typ("union", typ("int8"), IDREF)), leaf("union2", typ("union", typ("int8"), typ("union", typ("tb"), typ("boolean")))),
      S("leaf-list", "many", IDREF), S("leaf-list", "many2", typ("tb")), S("leaf-list", "manyu", typ("union", typ("int8"), IDREF)), S("list", "ent", S("key", "k"), leaf("k", IDREF), leaf("in", IDREF), leaf("in2", "ta")),
      con("plain", leaf("deep", IDREF)), prefix="m"),
)
POS = ["direct", "typedef", "typedef2", "union", "union2"]
IVALS = [(n, m, v) for m, ids, pres in (("other", ("o1", "other-x", "otherwise"), ("", "o:", "other:")), ("mod", ("i1", "mod-y", "modern"), ("", "mod:", "m:"))) for n in ids for p in pres for v in (p + n,)]


@rule("C12", "identities", 30, limit=250)
def identities(ctx):
    lab = ctx.lab()
    out = [HEAD, '''
def tree(e):
    return [[k.tag.split("}")[1], k.text, None if k.text is None or ":" not in k.text else k.nsmap.get(k.text.split(":")[0])] if not k.getchildren() else [k.tag.split("}")[1], tree(k)] for k in e.getchildren()]
''']
    for i, (n, m, v) in enumerate(IVALS):
        body = ["m = mod()"] + ["m.%s = %r" % (p, v) for p in POS] + ["m.many = [%r]" % v, "m.many2.append(%r)" % v, "m.manyu = [3, %r]" % v, "e = m.ent.add(%r)" % v, "e.in_ = %r" % v, "e.in2 = %r" % v, "m.plain.deep = %r" % v]
        b = "\n    ".join(body)
        out.append("def j_%d():\n    %s\n    return refused(pbj.dumps, m, mode='ietf')\n" % (i, b))
        out.append("def x_%d():\n    %s\n    return tree(refused(pybindIETFXMLEncoder.encode, m))\n" % (i, b))
    g = lab.bind("\n".join(out), *IMODS, only=["mod"])
    for i, (n, m, v) in enumerate(IVALS):
        w = n if m == "mod" else "other:" + n
        d = {"mod:" + p: w for p in POS}
        d.update({"mod:many": [w], "mod:many2": [w], "mod:manyu": [3, w], "mod:ent": [{"k": w, "in": w, "in2": w}], "mod:plain": {"deep": w}})
        run(ctx, lab, g, "%s as %s ietf" % (n, v), "j_%d" % i, {}, strict(d), site=IDS)
        ns = None if m == "mod" else "urn:other"
        x = [[p, w, ns] for p in POS] + [["many", w, ns], ["many2", w, ns], ["manyu", "3", None], ["manyu", w, ns], ["ent", [["k", w, ns], ["in", w, ns], ["in2", w, ns]]], ["plain", [["deep", w, ns]]]]
        run(ctx, lab, g, "%s as %s xml" % (n, v), "x_%d" % i, {}, strict(x), site=SER + "pybindIETFXMLEncoder.yname_ns_func")
