"""C15: reading, dumping and loading leave their inputs unmodified."""

import ast
import glob
import os

from sa import report

from .common import *
from .c10 import T_
from .c11 import ITEMS, MOD
from .c31 import BIG, LOADS, LOADI, LOADJ, LOADX

explain("C15", "Trees built by histories of changes are recorded (each value, the order of entries, what is changed and present, metadata), an operation that only reads is carried out, and the record is taken again: get, dumps in all modes and with every option, the encoders, XML, printing, iteration, comparison, lookup; the same is done for documents, option lists, and values and objects that the caller assigns, whose content must be as before also after the tree that took them was changed. The interpreter models the error that a dictionary raises, and the entries a list skips, when changed during iteration; loops that change what they iterate over are also looked for in the syntax tree.")

GET = BASE + "PybindBase.get"
DUMPS = PJ + "dumps"
HELP = LOADS + '''
def snap(e):
    g = getattr(e, "_pybind_generated_by", None)
    meta = list(e._metadata.items()) if hasattr(e, "_metadata") else None
    if g == "container":
        return [e._changed() if hasattr(e, "_changed") else None, e._present() if hasattr(e, "_present") else None, meta] + [[n, snap(getattr(e, n))] for n in e._pyangbind_elements]
    if g == "YANGListType":
        return [e._changed(), meta] + [[str(k), snap(e[k])] for k in e]
    if g == "TypedListType":
        return [e._changed(), meta] + [str(i) for i in e]
    return [e._changed(), str(e), meta]
'''
ALL = "\n    ".join(x[1] for x in BIG + [i for i in ITEMS if i[0] in ("en", "un", "u64", "bi", "lr", "bt", "es-default")])
FULL = "def full():\n    m = mod()\n    %s\n    m.l.add('zz')\n    m.l['k2']._add_metadata('note', 'x')\n    m.c._add_metadata('note', 'y')\n    return m\n" % ALL

# operations on m that only read
READS = {
    "get": "m.get()", "get of changes": "m.get(filter=True)", "get twice": "m.get(); m.get(filter=True); m.get()", "get of a container": "m.c.get(); m.c.get(filter=True)", "get of a list": "m.l.get(); m.l.get(filter=True)", "get of a leaf-list": "m.ll.get(); m.ll.get(filter=True)", "get of an entry": "m.l['k2'].get(); m.l['k2'].get(filter=True)",
    "dumps": "pbj.dumps(m)", "dumps unfiltered": "pbj.dumps(m, filter=False)", "dumps ietf": "pbj.dumps(m, mode='ietf')", "dumps ietf unfiltered": "pbj.dumps(m, mode='ietf', filter=False)", "dumps with defaults": "pbj.dumps(m, mode='ietf', with_defaults=WithDefaults.IF_SET)",
    "dumps of a container": "pbj.dumps(m.c); pbj.dumps(m.c, mode='ietf')", "dumps of a list": "pbj.dumps(m.l); pbj.dumps(m.l, mode='ietf')", "dumps of an entry": "pbj.dumps(m.l['k2']); pbj.dumps(m.l['k2'], mode='ietf')", "dumps of a leaf-list": "pbj.dumps(m.ll)",
    "skip": "pbj.dumps(m, skip_subtrees=['/c/e', '/ll', '/l/ic', '/a', '/two'])", "skip unfiltered": "pbj.dumps(m, filter=False, skip_subtrees=['/c/e', '/ll', '/l/ic', '/a', '/two/v', '/c'])", "skip ietf": "pbj.dumps(m, mode='ietf', skip_subtrees=['/c/e', '/ll', '/l/ic', '/a', '/c/cl'])",
    "select": "pbj.dumps(m.l, select={'v': 's'})", "select unfiltered": "pbj.dumps(m.l, filter=False, select={'v': 's'})", "select none": "pbj.dumps(m.l, filter=False, select={'k': 'nope'})", "select ietf": "pbj.dumps(m.l, mode='ietf', filter=False, select={'k': 'k2'})",
    "xml": "pybindIETFXMLEncoder.encode(m)", "xml unfiltered": "pybindIETFXMLEncoder.encode(m, filter=False)", "xml of a container": "pybindIETFXMLEncoder.encode(m.c)", "xml text": "pybindIETFXMLEncoder.serialise(m)",
    "elements": "m.elements(); m.c.elements(); [n for n in m]; str(m.c); repr(m.c)", "list reading": "list(m.l); m.l.keys(); m.l.items(); len(m.l); 'k2' in m.l; 'no' in m.l; [e for e in m.l]; m.l['k2']", "entries": "m.l.iteritems(); m.l.itervalues(); m.l.values()", "leaf-list reading": "list(m.ll); len(m.ll); '1' in m.ll; m.ll[0]; m.ll[:]; m.ll == ['1']; str(m.ll)",
    "paths": "m._path(); m.c._path(); m.l['k2']._path(); m.l['k2'].ic._path(); m.l['k2']._yang_path(); m.ll._yang_path()", "equality": "m.a == 's'; m.d == 0; m.b == False; m == m; m.l == m.l; m.c == m.c; m.l['k2'] != m.l['zz']",
    "refused reading": "attempt(lambda: m.l['no']); attempt(lambda: m.nothere); attempt(lambda: m.c['nothere']); attempt(lambda: m.ll[99])", "item access": "m['a']; m['c']; m.c['e']", "changes": "m.c._changed(); m.l._changed(); m.c.p._present(); m.c.pe._present(); m.l['k2']._changed()",
    "names": "m.c.yang_name(); m.a.yang_name(); m.a._is_leaf; m.c._is_container; m.l['k2'].k._is_keyval; m.a._defining_module; m.a._namespace",
    "extraction of leaves": "m._get_a(); m._get_c(); m._get_l(); m.c._get_x()", "copies": "import copy; copy.copy(m.ll); list(m.ll._list)",
}


def reading(part, parts):
    @rule("C15", "reading-%d" % (part + 1), 5, limit=300)
    def go(ctx):
        lab = ctx.lab()
        out = ["from pyangbind.lib.serialise import WithDefaults\nimport copy\n", HELP, FULL]
        mine = list(READS)[part::parts]
        for i, n in enumerate(mine):
            out.append("def f_%d():\n    m = full()\n    m._set_z(0)\n    b = snap(m)\n    attempt(go_%d, m)\n    return b == snap(m), pbj.dumps(m) == pbj.dumps(full())\n" % (i, i))
            out.append("def go_%d(m):\n    %s\n" % (i, READS[n].replace("import copy; ", "").replace("; ", "\n    ")))
        with ctx.instance("reading", GET):
            g = lab.bind("\n".join(out), MOD, generate_presence=True)
            for i, n in enumerate(mine):
                run_each(ctx, lab, g, "f_%d" % i, {}, [(n, True)], site=DUMPS if "dumps" in READS[n] else GET)


for _i in range(4):
    reading(_i, 4)


EMPTY = ["get", "get of changes", "dumps", "dumps unfiltered", "dumps ietf", "dumps ietf unfiltered", "xml", "xml unfiltered", "elements", "equality", "skip", "skip unfiltered", "list reading", "changes", "get of a list", "get of a leaf-list"]


@rule("C15", "reading-of-nothing-set", 14, limit=200)
def nothing(ctx):
    lab = ctx.lab()
    out = ["from pyangbind.lib.serialise import WithDefaults\n", HELP]
    for i, n in enumerate(EMPTY):
        out.append("def f_%d():\n    m = mod()\n    b = snap(m)\n    attempt(go_%d, m)\n    return [b == snap(m), m._changed() if hasattr(m, '_changed') else False, len(m.l), pbj.dumps(m)]\n" % (i, i))
        out.append("def go_%d(m):\n    %s\n" % (i, READS[n].replace("; ", "\n    ")))
    with ctx.instance("nothing set", GET):
        g = lab.bind("\n".join(out), MOD, generate_presence=True)
        for i, n in enumerate(EMPTY):
            run(ctx, lab, g, n, "f_%d" % i, {}, [True, False, 0, {}], site=GET)


SOME = ["get", "get of changes", "dumps", "dumps ietf", "xml", "dumps unfiltered", "dumps ietf unfiltered"]


@rule("C15", "reading-after-one-change", 40, limit=300)
def single(ctx):
    lab = ctx.lab()
    out = [HELP]
    ops = "\n    ".join("attempt(lambda: %s)" % READS[n] for n in SOME)
    for i, it in enumerate(ITEMS):
        out.append("def f_%d():\n    m = mod()\n    %s\n    b = snap(m)\n    %s\n    return b == snap(m)\n" % (i, it[1].replace("; ", "\n    "), ops))
    with ctx.instance("one change", GET):
        g = lab.bind("\n".join(out), MOD, generate_presence=True)
        for i, it in enumerate(ITEMS):
            run(ctx, lab, g, it[0], "f_%d" % i, {}, True, site=GET)


@rule("C15", "extracts-are-independent", 10, limit=200)
def independent(ctx):
    """Changes to what was extracted do not reach the tree, and the other way about."""
    lab = ctx.lab()
    CH = {
        "leaf-list of a tree": "d = m.get()\n    d['ll'].append('x')", "leaf-list": "d = m.ll.get()\n    d.append('x')", "leaf-list removed from": "d = m.get(filter=True)\n    d['ll'].remove('1')", "container": "d = m.get()\n    del d['c']['x']", "list": "d = m.get()\n    del d['l']['k2']", "list by itself": "d = m.l.get()\n    del d['k2']", "entry": "d = m.get()\n    d['l']['k2']['v'] = 'other'",
        "keys of a list": "d = m.l.keys()\n    attempt(lambda: d.remove('k2'))", "elements": "d = m.elements()\n    attempt(lambda: d.remove('a'))", "dumped": "d = pbj.dumps(m)\n    attempt(lambda: d['ll'].append('x'))\n    attempt(lambda: d.pop('c'))", "dumped ietf": "d = pbj.dumps(m, mode='ietf')\n    attempt(lambda: d['mod:ll'].append('x'))\n    attempt(lambda: d.pop('mod:c'))", "slice": "d = m.ll[:]\n    attempt(lambda: d.append('x'))", "path": "d = m.c._path()\n    attempt(lambda: d.append('x'))",
    }
    out = [HELP, FULL]
    for i, (n, op) in enumerate(CH.items()):
        out.append("def f_%d():\n    m = full()\n    b = snap(m)\n    %s\n    return b == snap(m), m.c._path() == ['c']\n" % (i, op))
    out.append("def later():\n    m = full()\n    d = m.get()\n    e = pbj.dumps(m)\n    m.ll.append('later')\n    m.l.delete('k2')\n    m.l.add('later')\n    m._unset_c()\n    return list(d['ll']) == ['1', '2'] or len(d['ll']), list(d['l']), e == pbj.dumps(full())\n")
    with ctx.instance("extracts", GET):
        g = lab.bind("\n".join(out), MOD, generate_presence=True)
        for i, n in enumerate(CH):
            run_each(ctx, lab, g, "f_%d" % i, {}, [(n + " changed", True), (n + " changed, paths", lambda r, rep: None)][:1], site=GET)


JDOC = "OrderedDict([('a', 's'), ('d', 0), ('ll', ['1', '2']), ('c', OrderedDict([('x', 's'), ('cl', [0, 3]), ('e', {'y': 'yy'}), ('p', {})])), ('l', OrderedDict([('k1', {'k': 'k1', 'v': 's', 'ic': {'zz': 't'}, 'il': {'j1': {'j': 'j1', 'iv': 's'}}}), ('k2', {'k': 'k2'})])), ('two', {'x y': {'k1': 'x', 'k2': 'y', 'v': 's'}}), ('em', True), ('bi', 'p')])"
IDOC = "OrderedDict([('mod:a', 's'), ('@mod:a', {'n': 'x'}), ('mod:d', 0), ('mod:ll', ['1', '2']), ('mod:c', OrderedDict([('x', 's'), ('@', {'n': 'x'}), ('cl', [0, 3]), ('e', {'y': 'yy'}), ('p', {})])), ('mod:l', [{'k': 'k1', 'v': 's', 'ic': {'zz': 't'}, 'il': [{'j': 'j1', 'iv': 's'}]}, {'k': 'k2'}]), ('mod:two', [{'k1': 'x', 'k2': 'y', 'v': 's'}]), ('mod:em', [None]), ('mod:bi', 'p')])"
UNK = "OrderedDict([('a', 's'), ('nope', {'x': [1]}), ('c', {'x': 's', 'nope': 1}), ('l', %s)])"
CALLS = {
    "json": ("lj(d, m)", JDOC), "json overwrite": ("lj(d, m, overwrite=True)", JDOC), "json skip": ("lj(d, m, skip_unknown=True)", UNK % "{'k1': {'k': 'k1', 'nope': 2}}"), "json refused": ("attempt(lj, d, m)", UNK % "{'k1': {'k': 'k1', 'nope': 2}}"), "json loads": ("pbj.loads(d, mods, 'mod')", JDOC), "json loads overwrite": ("pbj.loads(d, mods, 'mod', overwrite=True)", JDOC),
    "ietf": ("li(d, m)", IDOC), "ietf overwrite": ("li(d, m, overwrite=True)", IDOC), "ietf skip": ("li(d, m, skip_unknown=True)", UNK % "[{'k': 'k1', 'nope': 2}]"), "ietf refused": ("attempt(li, d, m)", UNK % "[{'k': 'k1', 'nope': 2}]"), "ietf loads": ("pbj.loads_ietf(d, mods, 'mod')", IDOC), "ietf loads overwrite": ("pbj.loads_ietf(d, mods, 'mod', overwrite=True)", IDOC),
}


@rule("C15", "documents", 32, limit=300)
def documents(ctx):
    lab = ctx.lab()
    out = ["from collections import OrderedDict\nclass mods(object):\n    pass\n", HELP, FULL]
    TREE = {"fresh": "m = mod()", "existing": "m = full()"}
    AFTER = {"": "pass", " then changed": "r.ll.append('later')\n    r.ll.remove('1')\n    r.c.cl.append(9)\n    r.l.delete('k1')\n    r.l['k2'].v = 'later'\n    r._unset_c()\n    r.a = 'later'"}
    todo = []
    for n, (call, doc) in CALLS.items():
        for tn, tree in TREE.items():
            if tn == "existing" and "mods" in call:
                continue
            for an, after in AFTER.items():
                if an and ("skip" in n or "refused" in n):
                    continue
                i = len(todo)
                todo.append("%s into a tree %s%s" % (n, tn, an))
                out.append("def f_%d():\n    mods.mod = mod\n    d = %s\n    %s\n    r = %s\n    %s\n    return [d == %s, list(d) == list(%s)]\n" % (i, doc, tree, call, after, doc, doc))
    with ctx.instance("documents", LOADJ):
        g = lab.bind("\n".join(out), MOD, generate_presence=True)
        for i, n in enumerate(todo):
            run(ctx, lab, g, n, "f_%d" % i, {}, [True, True], site=LOADJ if "json" in n else LOADI)


@rule("C15", "documents-of-user-ordered-lists", 8, limit=120)
def ordered(ctx):
    lab = ctx.lab()
    m = M("mod", S("list", "o", S("key", "k"), S("ordered-by", "user"), leaf("k", "string"), leaf("v", "string"), S("list", "i", S("key", "j"), S("ordered-by", "user"), leaf("j", "string"))), S("leaf-list", "ll", typ("string")))
    DOC = "{'o': OrderedDict([('b', {'k': 'b', 'v': 'x', '__yang_order': 1, 'i': {'q': {'j': 'q', '__yang_order': 0}}}), ('a', {'k': 'a', '__yang_order': 0}), ('c', {'k': 'c'})])}"
    out = ["from collections import OrderedDict\n", HELP]
    CH = {"loaded": "lj(d, m)", "loaded twice": "lj(d, m)\n    lj(d, m)", "overwritten": "lj(d, m)\n    lj(d, m, overwrite=True)", "then changed": "lj(d, m)\n    m.o.delete('b')\n    m.o['a'].v = 'y'"}
    for i, (n, op) in enumerate(CH.items()):
        out.append("def f_%d():\n    d = %s\n    m = mod()\n    %s\n    return [d == %s, list(d['o'])]\n" % (i, DOC, op, DOC))
    for i, op in enumerate(["m.get()", "m.get(filter=True)", "pbj.dumps(m)", "pbj.dumps(m, mode='ietf')", "pbj.dumps(m, filter=False)", "m.o.get()", "pybindIETFXMLEncoder.encode(m)"]):
        CH["reading by " + op] = None
        out.append("def r_%d():\n    m = lj(%s, mod())\n    b = snap(m)\n    %s\n    return [b == snap(m), list(m.o)]\n" % (i, DOC, op))
    with ctx.instance("user-ordered", LOADJ):
        g = lab.bind("\n".join(out), m)
        for i, n in enumerate([x for x in CH if CH[x]]):
            run(ctx, lab, g, n, "f_%d" % i, {}, [True, ["b", "a", "c"]], site=LOADJ)
        for i, n in enumerate([x for x in CH if not CH[x]]):
            run(ctx, lab, g, n, "r_%d" % i, {}, [True, ["a", "b", "c"]], site=GET)


@rule("C15", "xml-documents", 2, limit=120)
def xml(ctx):
    lab = ctx.lab()
    X = "E('mod', E('a', 's'), E('ll', '1'), E('ll', '2'), E('c', E('x', 's'), E('e', E('y', 'yy'))), E('l', E('k', 'k1'), E('v', 's'), E('il', E('j', 'j1'))), E('l', E('k', 'k2')), E('two', E('k1', 'x'), E('k2', 'y')))"
    out = ["from lxml import objectify\nE = objectify.ElementMaker(annotate=False, namespace='urn:mod')\n", HELP, FULL, "def tree(e):\n    return [[k.tag, k.text] if not k.getchildren() else [k.tag, tree(k)] for k in e.getchildren()]\n"]
    for i, t in enumerate(["mod()", "full()"]):
        out.append("def f_%d():\n    d = %s\n    b = tree(d)\n    lx(d, %s)\n    return b == tree(d)\n" % (i, X, t))
    with ctx.instance("xml", LOADX):
        g = lab.bind("\n".join(out), MOD, generate_presence=True)
        for i, n in enumerate(["fresh", "existing"]):
            run(ctx, lab, g, "into a tree " + n, "f_%d" % i, {}, True, site=LOADX)


@rule("C15", "arguments", 20, limit=250)
def arguments(ctx):
    """What the caller assigns stays the caller's."""
    lab = ctx.lab()
    ARG = {
        "list of a leaf-list": ("['1', '2']", "m.ll = x", "m.ll.append('3')\n    m.ll.remove('1')"), "list of a leaf-list by its setter": ("['1', '2']", "m._set_ll(x)", "m.ll.append('3')"), "list of another leaf-list": ("[1, 2]", "m.c.cl = x", "m.c.cl.append(3)"), "refused list": ("[1, 'x']", "attempt(lambda: m.c._set_cl(x))", "m.c.cl.append(3)"),
        "skip list": ("['/c/e', '/ll', '/l/ic']", "pbj.dumps(m, skip_subtrees=x)", "pbj.dumps(m, skip_subtrees=x, filter=False)"), "skip list ietf": ("['/c/e', '/ll', '/l/ic']", "pbj.dumps(m, mode='ietf', skip_subtrees=x)", "pass"), "select": ("{'v': 's', 'k': 'k2'}", "attempt(lambda: pbj.dumps(m.l, filter=False, select=x))", "attempt(lambda: pbj.dumps(m.l, mode='ietf', filter=False, select=x))"), "keywords of an entry": ("{'k1': 'p', 'k2': 'q'}", "m.two.add(**x)", "m.two['p q'].v = 'y'"),
    }
    OBJ = {
        "container": ("full()", "m.c = x.c", "m.c.x = 'later'\n    m.c.cl.append(9)\n    m.c.e.y = 'z'"), "container by its setter": ("full()", "m._set_c(x.c)", "m._unset_c()"), "leaf": ("full()", "m.a = x.a", "m.a = 'later'"), "leaf-list": ("full()", "m.ll = x.ll", "m.ll.append('later')"), "refused container": ("full()", "attempt(lambda: m._set_nothing(x.c))", "pass"),
        "entry": ("full()", "attempt(lambda: m.l.append(x.l['k2']))", "attempt(lambda: m.l['k2']._set_v('later'))"), "list": ("full()", "attempt(lambda: m._set_l(x.l))", "attempt(lambda: m.l.add('later'))"), "equality": ("full()", "m == x; m.c == x.c; m.l == x.l; m.ll == x.ll", "pass"),
    }
    out = [HELP, FULL]
    for i, (n, (x, op, after)) in enumerate(ARG.items()):
        out.append("def f_%d():\n    m = full()\n    x = %s\n    %s\n    a = x == %s\n    %s\n    return [a, x == %s]\n" % (i, x, op, x, after, x))
    for i, (n, (x, op, after)) in enumerate(OBJ.items()):
        out.append("def o_%d():\n    m = mod()\n    x = %s\n    b = snap(x)\n    %s\n    a = b == snap(x)\n    %s\n    return [a, b == snap(x)]\n" % (i, x, op.replace("; ", "\n    "), after))
    with ctx.instance("arguments", DUMPS):
        g = lab.bind("\n".join(out), MOD, generate_presence=True)
        for pre, ns in (("f", ARG), ("o", OBJ)):
            for i, n in enumerate(ns):
                run_each(ctx, lab, g, "%s_%d" % (pre, i), {}, [(n, True), (n + " after the tree is changed", True)], site=YT + "YANGDynClass" if pre == "o" else DUMPS)


@rule("C15", "values", 15, limit=250)
def values(ctx):
    """Any value: what a document and a tree hold is as before."""
    lab = ctx.lab()
    m = M("mod", leaf("a", "string"), leaf("n", "int8"), S("leaf-list", "ll", typ("string")), S("container", "c", leaf("x", "string")), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string")))
    D = HELP + '''
def build(v):
    m = mod()
    m.a = v
    m.c.x = v
    m.ll.append(v)
    m.l.add("e").v = v
    return m
def get(v):
    m = build(v)
    b = snap(m)
    m.get()
    m.get(filter=True)
    return b == snap(m)
def dump(v):
    m = build(v)
    b = snap(m)
    pbj.dumps(m)
    pbj.dumps(m, mode="ietf")
    return b == snap(m)
def loadj(v):
    d = {"a": v, "ll": [v], "c": {"x": v}, "l": {"e": {"k": "e", "v": v}}}
    m = lj(d, mod())
    m.a = "later"
    m.ll.append("later-" + v)
    return d == {"a": v, "ll": [v], "c": {"x": v}, "l": {"e": {"k": "e", "v": v}}}
def loadi(v):
    d = {"mod:a": v, "mod:ll": [v], "mod:c": {"x": v}, "mod:l": [{"k": "e", "v": v}]}
    m = li(d, mod())
    m.a = "later"
    m.ll.append("later-" + v)
    return d == {"mod:a": v, "mod:ll": [v], "mod:c": {"x": v}, "mod:l": [{"k": "e", "v": v}]}
def skip(v):
    m = build("s")
    b = snap(m)
    x = [v]
    pbj.dumps(m, skip_subtrees=x)
    return [b == snap(m), x == [v]]
'''
    with ctx.instance("values", GET):
        g = lab.bind(D, m)
        for fn in ("get", "dump", "loadj", "loadi"):
            run(ctx, lab, g, fn, fn, {"v": "str"}, True, vals("", "x", "5", "a b"), site=GET, universal=True)
        for p in ("/a", "/c", "/c/x", "/ll", "/l", "/l/v", "/l/e", "/nope", "", "/", "a"):
            run(ctx, lab, g, "skip %r" % p, "skip", {"v": C(p)}, [True, True], site=DUMPS)


# ------------------------------------------------------------ syntax
def iterated(e):
    """The expression that a loop iterates over in place, or None if it iterates over a copy."""
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ("keys", "values", "items", "iteritems", "iterkeys", "itervalues") and not e.args:
            return iterated(f.value)
        if isinstance(f, ast.Name) and f.id in ("enumerate", "iter", "reversed", "zip", "filter", "map") and e.args:
            return iterated(e.args[-1])
        return None
    if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
        return ast.unparse(e)
    return None


CHANGES = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "sort", "reverse"}


def changes(node, text):
    """Statements below the node that change the length of what the text names."""
    for n in ast.walk(node):
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and ast.unparse(t.value) == text:
                    yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES and ast.unparse(n.func.value) == text:
            yield n


def leaves(body, stmt):
    """Whether the loop is left right after the statement."""
    for b in body:
        for n in ast.walk(b):
            for f in ("body", "orelse", "finalbody"):
                ss = getattr(n, f, None)
                if isinstance(ss, list):
                    for i, s in enumerate(ss):
                        if any(x is stmt for x in ast.walk(s)) and not isinstance(s, (ast.For, ast.While, ast.If, ast.Try, ast.With)):
                            return any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in ss[i:]) or isinstance(s, ast.Return)
    for i, s in enumerate(body):
        if any(x is stmt for x in ast.walk(s)):
            return any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in body[i:])
    return False


@rule("C15", "loops", 1, limit=60)
def loops(ctx):
    n = 0
    for path in sorted(glob.glob(os.path.join(report.ROOT, "pyangbind", "lib", "*.py"))):
        tree = ast.parse(open(path).read())
        rel = os.path.relpath(path, report.ROOT)
        for f in ast.walk(tree):
            if not isinstance(f, ast.For):
                continue
            text = iterated(f.iter)
            inst = "%s: for %s in %s" % (rel, ast.unparse(f.target), ast.unparse(f.iter))
            site = "%s:%d" % (rel, f.lineno)
            if text is None:
                ctx.ok(inst, "a copy, or what a call returns, is iterated over", site)
                continue
            rebound = any(isinstance(x, (ast.Assign, ast.AugAssign)) and text in [ast.unparse(t) for t in (x.targets if isinstance(x, ast.Assign) else [x.target])] for b in f.body for x in ast.walk(b))
            bad = [x for b in f.body for x in changes(b, text) if not leaves(f.body, x)]
            if bad and rebound:
                ctx.und(inst, "%s is assigned in the loop" % text, site)
            elif bad:
                ctx.bad(inst, "%s is changed by `%s` (line %d) while it is iterated over" % (text, ast.unparse(bad[0]), bad[0].lineno), site)
            else:
                ctx.ok(inst, "%s is not changed in the loop" % text, site)
