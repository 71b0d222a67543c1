"""C10: each YANG type is serialised in the form its encoding mode prescribes."""

import json

from .common import *

explain("C10", "For every YANG type, placed as a leaf, behind one and two type definitions, further restricted, as a union member, in leaf-lists, in list entries and behind a leafref, the driver sets a value (or leaves the default), and calls the JSON, IETF JSON and XML encoders; the whole of it is interpreted abstractly through the emitted code and the library, down to a model of json and lxml.objectify that keeps documents as trees, and the form of each value in the document (text, number, truth value, null) is compared with the one prescribed for its type.")

SITE = SER + "YangDataSerialiser.default"

HEAD = '''
import pyangbind.lib.pybindJSON as pbj
from pyangbind.lib.serialise import pybindIETFXMLEncoder
from decimal import Decimal
def flat(e):
    out = []
    for k in e.getchildren():
        if k.getchildren():
            out = out + flat(k)
        else:
            out.append((k.tag.split("}")[1], k.text))
    return out
def xml(m, **kw):
    return flat(pybindIETFXMLEncoder.encode(m, **kw))
def refused(f, *a, **kw):
    try:
        return f(*a, **kw)
    except (AttributeError, TypeError, KeyError, AssertionError) as e:
        return "not encoded"
'''


def strict(w):
    """Equal as JSON documents: numbers, truth values, texts and nulls apart."""
    k = json.dumps(w, sort_keys=True)

    def want(r, rep):
        x = conc(r)
        if x is None:
            return None
        return json.dumps(x[0], sort_keys=True) == k

    return want


def conc(r):
    """[r] if it is all known, as plain JSON; None otherwise."""
    if isinstance(r, Raised):
        return None if r.name is None else ["raises " + r.name]
    if r is None or isinstance(r, (str, int, float, bool)):
        return [r]
    if isinstance(r, (list, tuple)):
        xs = [conc(x) for x in r]
        return None if None in xs else [[x[0] for x in xs]]
    if isinstance(r, dict):
        d = {}
        for k, v in r.items():
            x = conc(v)
            if x is None or not isinstance(k, str):
                return None
            d[k] = x[0]
        return [d]
    return None


EN = typ("enumeration", S("enum", "A"), S("enum", "7"), S("enum", "true"))
BITS = typ("bits", S("bit", "a"), S("bit", "b"), S("bit", "c"))
UN = lambda *a: typ("union", *[typ(x) if isinstance(x, str) else x for x in a])
NONE_ = object()
# name, type, further restriction or None, [(python expression, default JSON, IETF JSON, XML text)], default text and its three forms, as union member
T_ = [
    ("int8", typ("int8"), S("range", "-9..99"), [("5", 5, 5, "5"), ("'-3'", -3, -3, "-3"), ("0", 0, 0, "0")], ("6", 6, 6, "6")),
    ("int16", typ("int16"), S("range", "-9..999"), [("500", 500, 500, "500")], ("0", 0, 0, "0")),
    ("int32", typ("int32"), S("range", "-9..999"), [("-4", -4, -4, "-4")], None),
    ("int64", typ("int64"), S("range", "-9..999"), [("5", 5, "5", "5"), ("0", 0, "0", "0"), ("-7", -7, "-7", "-7")], ("8", 8, "8", "8")),
    ("uint8", typ("uint8"), S("range", "1..99"), [("5", 5, 5, "5")], None),
    ("uint16", typ("uint16"), S("range", "1..99"), [("'7'", 7, 7, "7")], ("4", 4, 4, "4")),
    ("uint32", typ("uint32"), S("range", "1..4294967295"), [("4294967295", 4294967295, 4294967295, "4294967295")], None),
    ("uint64", typ("uint64"), S("range", "1..18446744073709551615"), [("18446744073709551615", 18446744073709551615, "18446744073709551615", "18446744073709551615"), ("'9'", 9, "9", "9")], ("18446744073709551615", 18446744073709551615, "18446744073709551615", "18446744073709551615")),
    ("rng", typ("int64", S("range", "1..100")), S("range", "2..50"), [("7", 7, "7", "7")], ("9", 9, "9", "9")),
    ("rng8", typ("uint16", S("range", "1..100")), S("range", "2..50"), [("7", 7, 7, "7")], ("9", 9, 9, "9")),
    ("dec", typ("decimal64", S("fraction-digits", "2")), None, [("'1.25'", 1.25, "1.25", "1.25"), ("Decimal('-0.75')", -0.75, "-0.75", "-0.75"), ("2.125", 2.12, "2.12", "2.12")], ("0.25", 0.25, "0.25", "0.25")),
    ("dec8", typ("decimal64", S("fraction-digits", "8")), None, [("'0.00000001'", 0.00000001, "0.00000001", "0.00000001"), ("'0'", 0.0, "0.00000000", "0.00000000"), ("'-250'", -250.0, "-250.00000000", "-250.00000000")], ("0.00000002", 0.00000002, "0.00000002", "0.00000002")),
    ("str", typ("string"), S("length", "0..20"), [("'s'", "s", "s", "s"), ("'5'", "5", "5", "5"), ("'true'", "true", "true", "true"), ("'a b:c'", "a b:c", "a b:c", "a b:c")], ("x y", "x y", "x y", "x y")),
    ("pat", typ("string", S("pattern", "[a0-9]+")), S("length", "1..20"), [("'aa'", "aa", "aa", "aa"), ("'12'", "12", "12", "12")], ("0", "0", "0", "0")),
    ("enum", EN, None, [("'A'", "A", "A", "A"), ("'7'", "7", "7", "7"), ("'true'", "true", "true", "true")], ("7", "7", "7", "7")),
    ("bool", typ("boolean"), None, [("True", True, True, "true"), ("False", False, False, "false"), ("'true'", True, True, "true"), ("0", False, False, "false")], ("false", False, False, "false")),
    ("bool1", typ("boolean"), None, [("1", True, True, "true")], ("true", True, True, "true")),
    ("bits", BITS, None, [("'c a'", "a c", "a c", "a c"), ("'b'", "b", "b", "b")], ("b a", "a b", "a b", "a b")),
    ("bin", typ("binary"), S("length", "1..9"), [("b'ab'", "YWI=", "YWI=", "YWI="), ("'YWJj'", "YWJj", "YWJj", "YWJj")], ("YWI=", "YWI=", "YWI=", "YWI=")),
    ("binl", typ("binary", S("length", "1..4")), S("length", "1..3"), [("b'ab'", "YWI=", "YWI=", "YWI="), ("b'\\xff\\xfe'", "//4=", "//4=", "//4=")], ("YWI=", "YWI=", "YWI=", "YWI=")),
    ("idr", typ("identityref", S("base", "ib")), None, [("'i1'", "i1", "i1", "i1")], ("i1", "i1", "i1", "i1")),
    ("iid", typ("instance-identifier"), None, [("'/a/b'", "/a/b", "/a/b", "/a/b")], None),
    ("un", UN("uint64", "boolean", "string"), None, [("8", 8, "8", "8"), ("'true'", True, True, "true"), ("'zz'", "zz", "zz", "zz")], ("8", 8, "8", "8")),
    ("un2", UN("boolean", typ("binary", S("length", "2")), typ("decimal64", S("fraction-digits", "1")), BITS), None, [("True", True, True, "true"), ("b'ab'", "YWI=", "YWI=", "YWI="), ("'1.5'", 1.5, "1.5", "1.5"), ("'c b'", "b c", "b c", "b c")], ("true", True, True, "true")),
    ("un3", UN("int8", UN(typ("int64", S("range", "300..400")), EN)), None, [("5", 5, 5, "5"), ("301", 301, "301", "301"), ("'A'", "A", "A", "A")], ("302", 302, "302", "302")),
]
FORMS = (("default", 1), ("ietf", 2), ("xml", 3))


def modfor(name, t, r, dflt):
    td = [S("typedef", "ta", t), S("typedef", "tb", typ("ta"))]
    pos = ["direct", "typedef", "typedef2"]
    kids = [leaf("direct", t), leaf("typedef", typ("ta")), leaf("typedef2", typ("tb"))]
    if r is not None:
        td.append(S("typedef", "tc", typ("tb", r)))
        kids += [leaf("restricted", typ("ta", r)), leaf("restricted2", "tc")]
        pos += ["restricted", "restricted2"]
    kids += [leaf("union", UN(typ("uint16", S("range", "64001..64009")), t)), leaf("union2", UN(typ("int64", S("range", "-64009..-64001")), UN("tb")))]
    pos += ["union", "union2"]
    kids += [S("leaf-list", "many", t), S("leaf-list", "many2", typ("tb"))]
    kids += [S("list", "ent", S("key", "k"), leaf("k", "string"), leaf("in", t), S("leaf-list", "lim", typ("ta")))]
    kids += [S("container", "con", leaf("deep", typ("tb")))]
    dn = []
    if dflt is not None:
        d = S("default", dflt[0])
        dk = [leaf("ddirect", t, d), leaf("dtypedef", typ("tb"), d), leaf("dunion", UN(typ("uint16", S("range", "64001..64009")), t), d)]
        if r is not None:
            dk.append(leaf("drestr", typ("ta", r), d))
        kids.append(S("container", "df", *dk))
        dn = [k[1] for k in dk]
    return M("mod", S("identity", "ib"), S("identity", "i1", S("base", "ib")), *td, *kids), pos, dn


def drivers(name, pos, vals_, dflt):
    out = [HEAD]
    for i, v in enumerate(vals_):
        e = v[0]
        body = ["    m = mod()"] + ["    m.%s = %s" % (p, e) for p in pos]
        body += ["    m.many = [%s]" % e, "    m.many2.append(%s)" % e, "    n = m.ent.add('k1')", "    n.in_ = %s" % e, "    n.lim = [%s]" % e, "    m.con.deep = %s" % e]
        b = "\n".join(body)
        out.append("def set_%d():\n%s\n    return refused(pbj.dumps, m), refused(pbj.dumps, m, mode='ietf'), refused(xml, m)\n" % (i, b))
    if dflt is not None:
        out.append("def unset():\n    m = mod().df\n    return refused(pbj.dumps, m, filter=False), refused(pbj.dumps, m, filter=False, mode='ietf'), refused(xml, m, filter=False)\n")
    return "\n".join(out)


def wanted(form, pos, v):
    if form == "xml":
        out = [[p, v] for p in pos] + [["many", v], ["many2", v], ["k", "k1"], ["in", v], ["lim", v], ["deep", v]]
        return out
    e = {"k": "k1", "in": v, "lim": [v]}
    d = {p: v for p in pos}
    d.update({"many": [v], "many2": [v], "ent": {"k1": e} if form == "default" else [e], "con": {"deep": v}})
    if form == "ietf":
        return {"mod:" + k: x for k, x in d.items()}
    return d


def make(name, t, r, vals_, dflt):
    @rule("C10", "form-" + name, 1, limit=100)
    def _(ctx):
        lab = ctx.lab()
        m, pos, names = modfor(name, t, r, dflt)
        g = lab.bind(drivers(name, pos, vals_, dflt), m)
        for i, v in enumerate(vals_):
            run_each(ctx, lab, g, "set_%d" % i, {}, [("%s %s %s" % (name, v[0], form), strict(wanted(form, pos, v[j]))) for form, j in FORMS], SITE)
        if dflt is not None:
            ws = []
            for form, j in FORMS:
                w = [[n, dflt[j]] for n in names] if form == "xml" else {("mod:" if form == "ietf" else "") + n: dflt[j] for n in names}
                ws.append(("%s default %s" % (name, form), strict(w)))
            run_each(ctx, lab, g, "unset", {}, ws, SITE)


for a in T_:
    make(*a)


@rule("C10", "form-empty", 3)
def form_empty(ctx):
    lab = ctx.lab()
    m = M("mod", S("typedef", "ta", typ("empty")), leaf("direct", "empty"), S("list", "ent", S("key", "k"), leaf("k", "string"), leaf("in", "empty")), S("container", "unset", leaf("e", "empty")),
          S("container", "t", leaf("typedef", "ta")), S("container", "l", S("leaf-list", "many", typ("empty"))), S("container", "u", leaf("union", UN("empty", "int8"))))
    sets = {"plain": "m.direct = True; m.ent.add('k1').in_ = True", "typedef": "m.t.typedef = True", "leaf-list": "m.l.many = [True]", "union": "m.u.union = True"}
    out = [HEAD]
    for n, st in sets.items():
        p = pyname(n)
        out.append("def d_%s():\n    m = mod(); %s\n    return refused(pbj.dumps, m)\n" % (p, st))
        out.append("def i_%s():\n    m = mod(); %s\n    return refused(pbj.dumps, m, mode='ietf')\n" % (p, st))
        out.append("def x_%s():\n    m = mod(); %s\n    return refused(xml, m)\n" % (p, st))
    g = lab.bind("\n".join(out), m)
    E = [None]
    W = {
        "plain": ({"direct": True, "ent": {"k1": {"k": "k1", "in": True}}}, {"mod:direct": E, "mod:ent": [{"k": "k1", "in": E}]}, [["direct", None], ["k", "k1"], ["in", None]]),
        "typedef": ({"t": {"typedef": True}}, {"mod:t": {"typedef": E}}, [["typedef", None]]),
        "leaf-list": ({"l": {"many": [True]}}, {"mod:l": {"many": [E]}}, [["many", None]]),
        "union": ({"u": {"union": True}}, {"mod:u": {"union": E}}, [["union", None]]),
    }
    for n, ws in W.items():
        for f, form, w in zip("dix", ("default", "ietf", "xml"), ws):
            run(ctx, lab, g, "empty %s %s" % (n, form), "%s_%s" % (f, pyname(n)), {}, strict(w), site=SITE)


@rule("C10", "form-leafref", 6)
def form_leafref(ctx):
    """A leafref is written in the form of the type of its target when it points at a leaf, else as the value it was given."""
    lab = ctx.lab()
    kids, want = [], [[], [], []]
    D = [HEAD, "import pyangbind.lib.xpathhelper as xh"]
    todo = []
    for name, t, r, vals_, dflt in T_:
        if name in ("un2",):
            continue
        kids += [leaf("t-" + name, t), leaf("r-" + name, typ("leafref", S("path", "/mod:t-" + name)))]
    m = M("mod", S("identity", "ib"), S("identity", "i1", S("base", "ib")), *kids)
    i = 0
    for name, t, r, vals_, dflt in T_:
        if name in ("un2",):
            continue
        v = vals_[0]
        D.append("def p_%d():\n    m = mod(path_helper=xh.YANGPathHelper())\n    m.t_%s = %s\n    m.r_%s = %s\n    return refused(pbj.dumps, m), refused(pbj.dumps, m, mode='ietf'), refused(xml, m)\n" % (i, pyname(name), v[0], pyname(name), v[0]))
        todo.append((i, name, v))
        i += 1
    g = lab.bind("\n".join(D), m, use_xpathhelper=True)
    for i, name, v in todo:
        ws = []
        for form, j in FORMS:
            w = [["t-" + name, v[j]], ["r-" + name, v[j]]] if form == "xml" else {("mod:" if form == "ietf" else "") + q + name: v[j] for q in ("t-", "r-")}
            ws.append(("leafref to %s %s" % (name, form), strict(w)))
        run_each(ctx, lab, g, "p_%d" % i, {}, ws, SITE)
