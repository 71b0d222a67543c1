"""C13: decoders load or reject every input member, under the same options throughout."""

import itertools

from .common import *
from .c10 import T_, UN, strict
from .c31 import LOADS, LOADI, LOADJ, LOADX, SITES, MODES

explain("C13", "Documents are built from the statement alone - for every type the forms RFC 7951 and XML prescribe, for every position in the schema each member alone, all members together and in every order of sibling kinds, members unknown at every level with every kind of value, with and without the option to skip them - and given to the JSON, IETF JSON and XML decoders, interpreted abstractly through the emitted setters. The values read back are compared with those of the document; members that are neither loaded nor refused are violations. Path helper and extension methods given at the top are looked for at every level below.")

ident = [S("identity", "ib"), S("identity", "i1", S("base", "ib"))]
XE = "from lxml import objectify\nE = objectify.ElementMaker(annotate=False, namespace='urn:mod')\n"


def values(name, names):
    @rule("C13", name, 1, limit=250)
    def _(ctx):
        lab = ctx.lab()
        for t in T_:
            if t[0] not in names:
                continue
            ty = t[1]
            md = M("mod", *ident, S("typedef", "ta", ty), leaf("lf", ty), leaf("td", "ta"), leaf("un", UN(typ("uint16", S("range", "64001..64009")), ty)), S("leaf-list", "ll", ty), S("leaf-list", "lt", typ("ta")), S("container", "c", leaf("l", "ta")), S("list", "e", S("key", "k"), leaf("k", "string"), leaf("v", ty)), S("list", "lk", S("key", "k"), leaf("k", ty), leaf("v", "string")))
            out = [LOADS, XE]
            for j, (e, dj, di, dx) in enumerate(t[3]):
                for mode, v in (("json", repr(dj)), ("ietf", repr(di)), ("xml", repr(dx))):
                    p = "mod:" if mode == "ietf" else ""
                    if mode == "xml":
                        lv = "E('mod', E('lf', %s), E('td', %s), E('un', %s), E('ll', %s), E('lt', %s), E('c', E('l', %s)), E('e', E('k', 'a'), E('v', %s)), E('lk', E('k', %s), E('v', 'q')))" % ((v,) * 8)
                    elif mode == "json":
                        lv = "{'lf': %s, 'td': %s, 'un': %s, 'll': [%s], 'lt': [%s], 'c': {'l': %s}, 'e': {'a': {'k': 'a', 'v': %s}}, 'lk': {'%s': {'k': %s, 'v': 'q'}}}" % ((v,) * 7 + (str(dj), v))
                    else:
                        lv = "{'mod:lf': %s, 'mod:td': %s, 'mod:un': %s, 'mod:ll': [%s], 'mod:lt': [%s], 'mod:c': {'l': %s}, 'mod:e': [{'k': 'a', 'v': %s}], 'mod:lk': [{'k': %s, 'v': 'q'}]}" % ((v,) * 8)
                    out.append("def f_%d_%s():\n    o = mod()\n    o.lf = %s\n    n = mod()\n    w = o.lf\n    r = attempt(l%s, %s, n)\n    if r == 'raises':\n        return r\n    return [n.lf == w, n.td == w, n.un == w, [x == w for x in n.ll], [x == w for x in n.lt], n.c.l == w, [x.v == w for x in n.e.values()], [(x.k == w, x.v) for x in n.lk.values()], n.lf._changed(), n.td._changed(), n.c.l._changed()]\n" % (j, mode, e, mode[0], lv))
            g = lab.bind("\n".join(out), md)
            for j, val in enumerate(t[3]):
                for mode in MODES:
                    run(ctx, lab, g, "%s %s %s" % (t[0], val[0], mode), "f_%d_%s" % (j, mode), {}, [True, True, True, [True], [True], True, [True], [(True, "q")], True, True, True], site=SITES[mode])


NAMES = [t[0] for t in T_]
values("values-of-every-type-1", NAMES[::2])
values("values-of-every-type-2", NAMES[1::2])

SCHEMA = M("mod", leaf("a", "string"), leaf("em", "empty"), S("leaf-list", "ll", typ("string")), S("container", "c", leaf("a", "string"), S("leaf-list", "ll", typ("int8")), S("container", "d", leaf("a", "string"), leaf("class", "string")), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("a", "string"), S("container", "in", leaf("a", "string")))),
           S("list", "l", S("key", "k"), leaf("k", "int8"), leaf("a", "string"), S("list", "m", S("key", "x-y z"), leaf("x-y", "string"), leaf("z", "int8"), leaf("a", "string"))), S("container", "p", S("presence", "p"), leaf("a", "string")), S("choice", "ch", S("case", "sh", leaf("sh", "string")), S("case", "cc", leaf("ca", "string"))), S("list", "st", S("config", "false"), leaf("a", "string")),
           leaf("ro", "string", S("config", "false")), S("leaf-list", "rl", typ("int8"), S("config", "false")), S("list", "uo", S("key", "k"), S("ordered-by", "user"), leaf("k", "string"), leaf("a", "string"), S("container", "in", leaf("a", "string"))), S("leaf-list", "ul", typ("string"), S("ordered-by", "user")))
# member: JSON, IETF, XML, how to read, value
MEMBERS = [
    ("leaf", "'a': 'A'", "'mod:a': 'A'", "E('a', 'A')", "m.a", "A"),
    ("leaf-list", "'ll': ['1', 'x', '05']", "'mod:ll': ['1', 'x', '05']", "E('ll', '1'), E('ll', 'x'), E('ll', '05')", "[x for x in m.ll]", ["1", "x", "05"]),
    ("empty", "'em': True", "'mod:em': [None]", "E('em')", "bool(m.em)", True),
    ("container", "'c': {'a': 'B', 'd': {'class': 'C', 'a': 'D'}, 'll': [4, 5]}", "'mod:c': {'a': 'B', 'd': {'mod:class': 'C', 'a': 'D'}, 'll': [4, 5]}", "E('c', E('a', 'B'), E('d', E('class', 'C'), E('a', 'D')), E('ll', '4'), E('ll', '5'))", "(m.c.a, m.c.d.class_, m.c.d.a, [x for x in m.c.ll])", ("B", "C", "D", [4, 5])),
    ("list", "'l': {'1': {'k': 1, 'a': 'E'}, '2': {'k': 2, 'm': {'p 7': {'x-y': 'p', 'z': 7, 'a': 'F'}}}}", "'mod:l': [{'k': 1, 'a': 'E'}, {'k': 2, 'm': [{'x-y': 'p', 'z': 7, 'a': 'F'}]}]", "E('l', E('k', '1'), E('a', 'E')), E('l', E('k', '2'), E('m', E('x-y', 'p'), E('z', '7'), E('a', 'F')))", "[(e.k, e.a, [(f.x_y, f.z, f.a) for f in e.m.values()]) for e in m.l.values()]", [(1, "E", []), (2, ANY, [("p", 7, "F")])]),
    ("presence", "'p': {}", "'mod:p': {}", "E('p')", "m.p._present()", True),
    ("presence below", "'p': {'a': 'G'}", "'mod:p': {'a': 'G'}", "E('p', E('a', 'G'))", "(m.p._present(), m.p.a)", (True, "G")),
    ("read-only leaf and leaf-list", "'ro': 'K', 'rl': [5, 4]", "'mod:ro': 'K', 'mod:rl': [5, 4]", "E('ro', 'K'), E('rl', '5'), E('rl', '4')", "(m.ro, [x for x in m.rl])", ("K", [5, 4])),
    ("ordered by user", "'uo': {'q': {'k': 'q', 'a': 'L'}, 'p': {'k': 'p', 'in': {'a': 'M'}}}, 'ul': ['z', 'y']", "'mod:uo': [{'k': 'q', 'a': 'L'}, {'k': 'p', 'in': {'a': 'M'}}], 'mod:ul': ['z', 'y']", "E('uo', E('k', 'q'), E('a', 'L')), E('uo', E('k', 'p'), E('in', E('a', 'M'))), E('ul', 'z'), E('ul', 'y')", "(sorted([e.k for e in m.uo.values()]), m.uo['q'].a, m.uo['p'].in_.a, [x for x in m.ul])", (["p", "q"], "L", "M", ["z", "y"])),
    ("choice", "'sh': 'H'", "'mod:sh': 'H'", "E('sh', 'H')", "m.sh", "H"),
    ("inner list", "'c': {'l': {'q': {'k': 'q', 'a': 'I', 'in': {'a': 'J'}}}}", "'mod:c': {'l': [{'k': 'q', 'a': 'I', 'in': {'a': 'J'}}]}", "E('c', E('l', E('k', 'q'), E('a', 'I'), E('in', E('a', 'J'))))", "[(e.k, e.a, e.in_.a) for e in m.c.l.values()]", [("q", "I", "J")]),
]


@rule("C13", "each-member", 60, limit=250)
def members(ctx):
    """Members alone, in pairs in both orders, and all of them in several orders."""
    lab = ctx.lab()
    sets = [[x] for x in MEMBERS]
    idx = [i for i in range(len(MEMBERS)) if MEMBERS[i][0] not in ("inner list", "presence")]
    sets += [[MEMBERS[i], MEMBERS[j]] for i in idx for j in idx if i != j and (i + j) % 2]
    alls = [MEMBERS[i] for i in idx]
    sets += [alls, alls[::-1], alls[3:] + alls[:3], alls[5:] + alls[:5]]
    out = [LOADS, XE]
    for i, ms in enumerate(sets):
        body = ""
        for mode, c in (("json", 1), ("ietf", 2), ("xml", 3)):
            doc = "{%s}" % ", ".join(x[c] for x in ms) if c < 3 else "E('mod', %s)" % ", ".join(x[c] for x in ms)
            body += "    m = mod()\n    if attempt(l%s, %s, m) == 'raises':\n        r.append('raises')\n    else:\n        r.append([%s])\n" % (mode[0], doc, ", ".join(x[4] for x in ms))
        out.append("def f_%d():\n    r = []\n%s    return r\n" % (i, body))
    g = lab.bind("\n".join(out), SCHEMA, generate_presence=True)
    for i, ms in enumerate(sets):
        n = " and ".join(x[0] for x in ms) if len(ms) < 4 else "all, %s first" % ms[0][0]
        run_each(ctx, lab, g, "f_%d" % i, {}, [("%s %s" % (n, mode), [x[5] for x in ms]) for mode in MODES], LOADI)


UNKNOWN = [("text", "'t'"), ("number", "5"), ("null", "None"), ("truth value", "False"), ("object", "{'a': 1}"), ("empty object", "{}"), ("array", "['t']"), ("empty array", "[]"), ("array of objects", "[{'k': 'q'}]"), ("array of null", "[None]"), ("nested", "{'c': {'d': [1, {'a': 2}]}}")]
LEVELS = [("module", "%s"), ("container", "'c': {%s}"), ("container twice", "'c': {'d': {%s}}"), ("entry", None), ("inner entry", None), ("container of entry", None), ("presence container", "'p': {%s}"), ("entry ordered by user", None), ("container of entry ordered by user", None), ("read-only entry", None)]


def at(level, mode, member):
    if level == "entry":
        return "'l': {'1': {'k': 1, %s}}" % member if mode == "json" else "'l': [{'k': 1, %s}]" % member
    if level == "inner entry":
        return "'l': {'1': {'k': 1, 'm': {'p 7': {'x-y': 'p', 'z': 7, %s}}}}" % member if mode == "json" else "'l': [{'k': 1, 'm': [{'x-y': 'p', 'z': 7, %s}]}]" % member
    if level == "container of entry":
        return "'c': {'l': {'q': {'k': 'q', 'in': {%s}}}}" % member if mode == "json" else "'c': {'l': [{'k': 'q', 'in': {%s}}]}" % member
    if level == "entry ordered by user":
        return "'uo': {'q': {'k': 'q', %s, '__yang_order': 0}}" % member if mode == "json" else "'uo': [{'k': 'q', %s}]" % member
    if level == "container of entry ordered by user":
        return "'uo': {'q': {'k': 'q', 'in': {%s}}}" % member if mode == "json" else "'uo': [{'k': 'q', 'in': {%s}}]" % member
    if level == "read-only entry":
        return "'st': {'1': {%s}}" % member if mode == "json" else "'st': [{%s}]" % member
    return dict(LEVELS)[level] % member


READ = {"module": "m.a", "container": "m.c.a", "container twice": "m.c.d.a", "entry": "m.l[1].a if 1 in m.l else m.l['1'].a", "inner entry": "(m.l[1] if 1 in m.l else m.l['1']).m['p 7'].a", "container of entry": "m.c.l['q'].in_.a", "presence container": "m.p.a", "entry ordered by user": "m.uo['q'].a", "container of entry ordered by user": "m.uo['q'].in_.a", "read-only entry": "[e.a for e in m.st.values()][0]"}


def unknown(ctx, modes):
    """A member the schema does not have is refused, or skipped without losing its siblings."""
    lab = ctx.lab()
    out = [LOADS, XE]
    cases = []
    for mode in modes[:1]:
        for level, _ in LEVELS:
            for j, (un, v) in enumerate(UNKNOWN):
                for name in ("nosuch",) if mode == "json" else ("nosuch", "mod:nosuch"):
                    if name != "nosuch" and j % 3:
                        continue
                    fn = "f_%s_%s_%d_%s" % (mode, level.replace(" ", "_").replace("-", "_"), j, name.replace(":", "_"))
                    d1 = "{%s}" % at(level, mode, "%r: %s, 'a': 'after'" % (name, v))
                    d2 = "{%s}" % at(level, mode, "'a': 'before', %r: %s" % (name, v))
                    out.append("def %s():\n    r = []\n    for d in (%s, %s):\n        m = mod()\n        r.append('refused' if attempt(l%s, d, m) == 'raises' else 'loaded')\n        m = mod()\n        r.append('refused' if attempt(l%s, d, m, skip_unknown=True) == 'raises' else %s)\n    return r\n" % (fn, d1, d2, mode[0], mode[0], READ[level]))
                    cases.append((fn, "%s %s in %s %s" % (un, name, level, mode), ["refused", "after", "refused", "before"], mode))
    if "xml" in modes:
        for level, doc in (("module", "E('mod', E('nosuch', %s), E('a', 'x'))"), ("container", "E('mod', E('c', E('a', 'x'), E('nosuch', %s)))"), ("entry", "E('mod', E('l', E('k', '1'), E('nosuch', %s)))"), ("container of entry", "E('mod', E('c', E('l', E('k', 'q'), E('in', E('nosuch', %s)))))"), ("presence container", "E('mod', E('p', E('nosuch', %s)))")):
            for j, v in enumerate(("'t'", "None", "E('a', 'x')")):
                fn = "x_%s_%d" % (level.replace(" ", "_").replace("-", "_"), j)
                out.append("def %s():\n    m = mod()\n    return 'refused' if attempt(lx, %s, m) == 'raises' else 'loaded'\n" % (fn, doc % v))
                cases.append((fn, "%s in %s xml" % (v, level), "refused", "xml"))
    g = lab.bind("\n".join(out), SCHEMA, generate_presence=True)
    for fn, n, w, mode in cases:
        run(ctx, lab, g, n, fn, {}, w, site=SITES[mode])


@rule("C13", "unknown-members-json", 50, limit=250)
def unknown_json(ctx):
    unknown(ctx, ["json"])


@rule("C13", "unknown-members", 50, limit=250)
def unknown_ietf(ctx):
    unknown(ctx, ["ietf", "xml"])


BAD = [("leaf", "'a': 'x', 'c': {'ll': [300]}"), ("leaf-list", "'c': {'ll': [1, 'x']}"), ("container", "'c': 5"), ("container text", "'c': 'x'"), ("inner container", "'c': {'d': 'x'}"), ("key", None), ("inner key", None)]


@rule("C13", "refused-values", 12, limit=150)
def refused_values(ctx):
    """Values the type of the node has no room for are refused, also when unknown members are skipped."""
    lab = ctx.lab()
    out = [LOADS, XE]
    cases = []
    for mode in ("json", "ietf"):
        for j, (n, d) in enumerate(BAD):
            if n == "key":
                d = "'l': {'400': {'k': 400}}" if mode == "json" else "'l': [{'k': 400}]"
            if n == "inner key":
                d = "'l': {'4': {'k': 4, 'm': {'p x': {'x-y': 'p', 'z': 'x'}}}}" if mode == "json" else "'l': [{'k': 4, 'm': [{'x-y': 'p', 'z': 'x'}]}]"
            out.append("def f_%s_%d():\n    r = []\n    for kw in ({}, {'skip_unknown': True}, {'overwrite': True}):\n        m = mod()\n        r.append(attempt(l%s, {%s}, m, **kw) == 'raises')\n    return r\n" % (mode, j, mode[0], d))
            cases.append(("f_%s_%d" % (mode, j), "%s %s" % (n, mode), [True] * 3, mode))
    for j, (n, d) in enumerate([("leaf-list", "E('c', E('ll', '300'))"), ("key", "E('l', E('k', '400'))"), ("no key", "E('l', E('a', 'x'))"), ("empty with text", "E('em', 'x')"), ("inner key", "E('l', E('k', '4'), E('m', E('x-y', 'p'), E('z', 'x')))")]):
        out.append("def x_%d():\n    m = mod()\n    return attempt(lx, E('mod', %s), m) == 'raises'\n" % (j, d))
        cases.append(("x_%d" % j, n + " xml", True, "xml"))
    for j, d in enumerate(("{'mod:l': [{'a': 'x'}]}", "{'mod:em': 5}", "{'mod:em': True}", "{'mod:c': ['x']}", "{'mod:l': [{'k': 4, 'm': [{'x-y': 'p'}]}]}")):
        out.append("def i_%d():\n    m = mod()\n    return attempt(li, %s, m) == 'raises'\n" % (j, d))
        cases.append(("i_%d" % j, "%s ietf" % d, True, "ietf"))
    g = lab.bind("\n".join(out), SCHEMA, generate_presence=True)
    for fn, n, w, mode in cases:
        run(ctx, lab, g, n, fn, {}, w, site=SITES[mode])


@rule("C13", "annotations", 7, limit=150)
def annotations(ctx):
    """Annotations go to the node they are about, and are no members."""
    lab = ctx.lab()
    out = [LOADS]
    cases = [
        ("of a leaf", "{'mod:a': 'A', '@mod:a': {'x:n': 5}}", "(m.a, m.a._metadata)", ("A", {"x:n": 5})),
        ("of a leaf, first", "{'@mod:a': {'x:n': 5}, 'mod:a': 'A'}", "(m.a, m.a._metadata)", ("A", {"x:n": 5})),
        ("of a leaf in a container", "{'mod:c': {'a': 'A', '@a': {'x:n': 'v', 'x:o': 'w'}}}", "(m.c.a, m.c.a._metadata, m.a._metadata)", ("A", {"x:n": "v", "x:o": "w"}, {})),
        ("of a container", "{'mod:c': {'@': {'x:n': 5}, 'a': 'A'}}", "(m.c.a, m.c._metadata, m.c.a._metadata)", ("A", {"x:n": 5}, {})),
        ("of an entry", "{'mod:l': [{'k': 1, '@': {'x:n': 5}}, {'k': 2}]}", "[e._metadata for e in m.l.values()]", [{"x:n": 5}, {}]),
        ("of a leaf of an entry", "{'mod:l': [{'k': 1, 'a': 'A', '@a': {'x:n': 5}}, {'k': 2, 'a': 'B'}]}", "[(e.a, e.a._metadata) for e in m.l.values()]", [("A", {"x:n": 5}), ("B", {})]),
        ("of nothing", "{'@nosuch': {'x:n': 5}, 'mod:a': 'A'}", "m.a", "A"),
    ]
    for j, (n, d, read, w) in enumerate(cases):
        out.append("def f_%d():\n    m = mod()\n    if attempt(li, %s, m) == 'raises':\n        return 'raises'\n    return %s\n" % (j, d, read))
    g = lab.bind("\n".join(out), SCHEMA, generate_presence=True)
    for j, (n, d, read, w) in enumerate(cases):
        run(ctx, lab, g, n, "f_%d" % j, {}, w, site=LOADI)


@rule("C13", "names-with-modules", 8, limit=150)
def qualified(ctx):
    """Names are found with and without the name of their module, with reserved words and with characters Python has no use for."""
    lab = ctx.lab()
    other = M("other", prefix="op")
    md = M("mod", leaf("global", "string"), leaf("a.b-c", "string"), S("container", "while", leaf("a-b", "string"), S("leaf", "aug", typ("string"), aug="other"), S("leaf-list", "is", typ("string"))), S("list", "for", S("key", "in"), leaf("in", "string"), leaf("or", "string"), S("leaf", "x-aug", typ("string"), aug="other")))
    rd = "(m.global_, m.a_b_c, m.while_.a_b, m.while_.aug, [x for x in m.while_.is_], [(e.in_, e.or_, e.x_aug) for e in m.for_.values()])"
    w = ("A", "B", "C", "D", ["E"], [("F", "G", "H")])
    docs = [("json", "j", "{'global': 'A', 'a.b-c': 'B', 'while': {'a-b': 'C', 'aug': 'D', 'is': ['E']}, 'for': {'F': {'in': 'F', 'or': 'G', 'x-aug': 'H'}}}"),
            ("unqualified", "i", "{'global': 'A', 'a.b-c': 'B', 'while': {'a-b': 'C', 'aug': 'D', 'is': ['E']}, 'for': [{'in': 'F', 'or': 'G', 'x-aug': 'H'}]}"),
            ("qualified at module changes", "i", "{'mod:global': 'A', 'mod:a.b-c': 'B', 'mod:while': {'a-b': 'C', 'other:aug': 'D', 'is': ['E']}, 'mod:for': [{'in': 'F', 'or': 'G', 'other:x-aug': 'H'}]}"),
            ("qualified", "i", "{'mod:global': 'A', 'mod:a.b-c': 'B', 'mod:while': {'mod:a-b': 'C', 'other:aug': 'D', 'mod:is': ['E']}, 'mod:for': [{'in': 'F', 'mod:or': 'G', 'other:x-aug': 'H'}]}"),
            ("xml", "x", "E('mod', E('global', 'A'), E('a.b-c', 'B'), E('while', E('a-b', 'C'), O('aug', 'D'), E('is', 'E')), E('for', E('in', 'F'), E('or', 'G'), O('x-aug', 'H')))")]
    out = [LOADS, XE, "O = objectify.ElementMaker(annotate=False, namespace='urn:other')\n"]
    for j, (n, f, d) in enumerate(docs):
        out.append("def f_%d():\n    m = mod()\n    if attempt(l%s, %s, m) == 'raises':\n        return ['raises'] * 6\n    return %s\n" % (j, f, d, rd))
    g = lab.bind("\n".join(out), other, md, only=["mod"])
    for j, (n, f, d) in enumerate(docs):
        run_each(ctx, lab, g, "f_%d" % j, {}, [("%s %s" % (n, x), y) for x, y in zip(("reserved word", "dots and hyphens", "in a container", "augmented leaf", "leaf-list", "list"), w)], {"j": LOADJ, "i": LOADI, "x": LOADX}[f])


@rule("C13", "options", 21, limit=200)
def options(ctx):
    """The object that is made, and every node below it, has the path helper and the extension methods given."""
    lab = ctx.lab()
    out = [LOADS, XE, '''
import pyangbind.lib.xpathhelper as xh
def of_file(d, *a, **kw):
    open('doc', 'w').write(d)
    return pbj.load('doc', *a, **kw)
def of_ietf_file(d, *a, **kw):
    open('doc', 'w').write(d)
    return pbj.load_ietf('doc', *a, **kw)
class P(object):
    pass
P.mod = mod
class Ext(object):
    def commit(self, *args, **kw):
        return ("called", kw.get("caller"), args)
def below(m):
    return [m, m.c, m.c.d, m.l, [e for e in m.l.values()][0], [e for e in m.l.values()][0].m]
''']
    DOC = {"json": "{'c': {'d': {'a': 'A'}}, 'l': {'1': {'k': 1, 'm': {'p 7': {'x-y': 'p', 'z': 7}}}}}", "ietf": "{'mod:c': {'d': {'a': 'A'}}, 'mod:l': [{'k': 1, 'm': [{'x-y': 'p', 'z': 7}]}]}", "xml": "E('mod', E('c', E('d', E('a', 'A'))), E('l', E('k', '1'), E('m', E('x-y', 'p'), E('z', '7'))))"}
    CALL = {"json": ["pybindJSONDecoder.load_json", "pbj.loads", "of_file"], "ietf": ["pybindJSONDecoder.load_ietf_json", "pbj.loads_ietf", "of_ietf_file"], "xml": ["pybindIETFXMLDecoder.load_xml"]}
    cases = []
    for mode in MODES:
        for j, f in enumerate(CALL[mode]):
            out.append("def h_%s_%d():\n    h = xh.YANGPathHelper()\n    m = %s(%s, P, 'mod', path_helper=h)\n    return [x._path_helper is h for x in below(m)], len(h.get('/c/d/a')), h.get('/c/d')[0] is m.c.d\n" % (mode, j, f, DOC[mode]))
            out.append("def again_%s_%d():\n    h = xh.YANGPathHelper()\n    m = mod(path_helper=h)\n    m.a = 'kept'\n    n = %s(%s, P, 'mod', path_helper=h)\n    return n is m, m.a, m.c.d.a\n" % (mode, j, f, DOC[mode]))
            out.append("def e_%s_%d():\n    x = {'/mod/c/d': Ext(), '/mod/l': Ext(), '/mod/l/m': Ext()}\n    m = %s(%s, P, 'mod', extmethods=x)\n    return m._extmethods is x, m.c._extmethods is x, m.c.d._extmethods is x\n" % (mode, j, f, DOC[mode]))
            out.append("def n_%s_%d():\n    m = %s(%s, P, 'mod')\n    return [x._path_helper for x in below(m)], m._extmethods, m.c.d.a\n" % (mode, j, f, DOC[mode]))
            for k, w in (("h", ([True] * 6, 1, True)), ("e", (True, True, True)), ("n", ([False] * 6, False, "A")), ("again", None)):
                n = {"h": "path helper", "e": "extension methods", "n": "neither", "again": "an object that is there"}[k]
                cases.append(("%s_%s_%d" % (k, mode, j), "%s, %s" % (n, f), w, mode))
    g = lab.bind("\n".join(out), SCHEMA, generate_presence=True, use_xpathhelper=True, use_extmethods=True)
    for fn, n, w, mode in cases:
        if w is not None:
            run(ctx, lab, g, n, fn, {}, w, site=SITES[mode])
