"""C34: the members of enumerations have the numbers of the module."""

from .common import *
from .c31 import LOADS as PRELUDE

explain("C34", "Enumerations of the kinds that YANG distinguishes (no values, all given, some given, negative ones, zero and gaps, values lower than those before, names that look like marks or numbers) are generated and bound in every place "
        "that can hold them (leaf, typedef, typedef of a typedef, union member, leaf-list entry, list key, leafref target, container leaf). The integer read for each member is derived from the source and compared with the one of the enum's value statement or, without one, "
        "that after the highest of those before it; the same after defaults, resets, assignment of containers, and every load.")

SITE = YT + "RestrictedClassType"
# members: name, given value or None
ENUMS = {
    "no values": [("a", None), ("b", None), ("c", None), ("d", None)],
    "all given": [("a", 5), ("b", 3), ("c", 0), ("d", 2147483647)],
    "the first given": [("a", 10), ("b", None), ("c", None)],
    "one in the middle": [("a", None), ("b", 7), ("c", None), ("d", None)],
    "a lower one after a higher": [("a", 9), ("b", 4), ("c", None), ("d", None)],
    "given what comes next": [("a", None), ("b", 1), ("c", None)],
    "given what a later one counts to": [("a", None), ("b", None), ("z", 9), ("c", None), ("d", 2)],
    "negative": [("a", -3), ("b", None), ("c", -10), ("d", None), ("e", 5), ("f", None)],
    "the lowest": [("a", -2147483648), ("b", None), ("c", None)],
    "zero late": [("a", 1), ("b", None), ("c", 0), ("d", None)],
    "odd names": [("@a", None), ("0", 4), ("value", None), ("x y", None), ("-", 0), ("@", None)],
    "one": [("only", None)],
    "one given": [("only", 77)],
    "one given negative": [("only", -1)],
    "many": [("m%d" % i, {5: 50, 9: 20, 12: 3}.get(i)) for i in range(16)],
}


def numbers(ms):
    out, top = {}, None
    for n, v in ms:
        out[n] = v if v is not None else 0 if top is None else top + 1
        top = out[n] if top is None else max(top, out[n])
    return out


def enum(ms):
    return typ("enumeration", *[S("enum", n, *([S("value", str(v))] if v is not None else [])) for n, v in ms])


# how a value n comes to be read in a place
WAYS = {
    "leaf": "m.x = n\n    return int(m.x.getValue(mapped=True))",
    "typedef": "m.t = n\n    return int(m.t.getValue(mapped=True))",
    "typedef of a typedef": "m.tt = n\n    return int(m.tt.getValue(mapped=True))",
    "restarted": "m.x = n\n    m._unset_x()\n    m.x = n\n    return int(m.x.getValue(mapped=True))",
    "leaf-list": "m.ll.append(n)\n    return int(m.ll[0].getValue(mapped=True))",
    "within a container": "m.c.x = n\n    return int(m.c.x.getValue(mapped=True))",
    "key": "e = m.l.add(n)\n    return int(e.k.getValue(mapped=True))",
    "in an entry": "e = m.l.add(n)\n    e.x = n\n    return int(m.l[n].x.getValue(mapped=True))",
    "assigned container": "o = mod()\n    o.c.x = n\n    m.c = o.c\n    return int(m.c.x.getValue(mapped=True))",
    "default JSON": "lj({'x': n, 'c': {'x': n}}, m)\n    return (int(m.x.getValue(mapped=True)), int(m.c.x.getValue(mapped=True)))",
    "a document of default JSON": "z = mod()\n    m.x = n\n    m.c.x = n\n    m.l.add(n)\n    m.ll.append(n)\n    rt_json(m, z)\n    return [int(y.getValue(mapped=True)) for y in (z.x, z.c.x, z.l[n].k, z.ll[0])]",
    "a document of the IETF mode": "z = mod()\n    m.x = n\n    m.c.x = n\n    m.l.add(n)\n    m.ll.append(n)\n    rt_ietf(m, z)\n    return [int(y.getValue(mapped=True)) for y in (z.x, z.c.x, z.l[n].k, z.ll[0])]",
    "an XML document": "z = mod()\n    m.x = n\n    m.c.x = n\n    m.l.add(n)\n    m.ll.append(n)\n    rt_xml(m, z)\n    return [int(y.getValue(mapped=True)) for y in (z.x, z.c.x, z.l[n].k, z.ll[0])]",
    "IETF JSON": "li({'mod:x': n, 'mod:c': {'x': n}}, m)\n    return (int(m.x.getValue(mapped=True)), int(m.c.x.getValue(mapped=True)))",
}


def schema(ms):
    e = enum(ms)
    return M("mod", S("typedef", "e1", e), S("typedef", "e2", typ("e1")), leaf("x", e), leaf("t", "e1"), leaf("tt", "e2"), S("leaf-list", "ll", e), S("container", "c", leaf("x", e)), S("list", "l", S("key", "k"), leaf("k", e), leaf("x", "e1")))


def way(wn, code):
    @rule("C34", "read-" + wn.replace(" ", "-"), len(ENUMS), limit=150)
    def _(ctx):
        for what, ms in ENUMS.items():
            lab = ctx.lab()
            want = numbers(ms)
            D = PRELUDE + "def f(n):\n    m = mod()\n    %s\ndef g():\n    return [%s]\n" % (code, ", ".join("f(%r)" % n for n, _ in ms))
            g = lab.bind(D, schema(ms))
            run_each(ctx, lab, g, "g", {}, [("%s, %s" % (what, n), [v] * 4 if "document" in wn else (v, v) if "JSON" in wn else v) for n, v in want.items()], SITE)


for _n, _c in WAYS.items():
    way(_n, _c)
