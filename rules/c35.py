"""C35: what is done to one object shows in no other."""

from .common import *
from .c13 import XE
from .c15 import HELP

explain("C35", "Bindings with every kind of node are generated from the source and instantiated several times (two trees, two entries of a list, two containers made from one grouping, with and without a path helper); the whole state of one (every value, what is changed and present, order, metadata, defaults, allowed bits, path, methods) is recorded, "
        "one operation of each kind - also refused ones, loads and dumps - is carried out on the other, and the record is taken again. The same for objects given as values: after assigning, appending or loading, changes of what was given do not show in the tree, nor those of the tree in what was given.")

SITE = YT + "YANGDynClass"
BITS = typ("bits", S("bit", "p"), S("bit", "q"))
BODY = [leaf("a", "string"), S("leaf", "d", typ("int8"), S("default", "5")), S("leaf", "en", typ("enumeration", S("enum", "A"), S("enum", "B"))), S("leaf", "un", typ("union", typ("int8"), typ("string"))), S("leaf", "bi", BITS), S("leaf", "de", typ("decimal64", S("fraction-digits", "2"))), leaf("by", "binary"), leaf("em", "empty"),
        S("leaf-list", "ll", typ("string")), S("leaf-list", "lb", BITS), S("container", "c", leaf("x", "string"), S("leaf-list", "cl", typ("int8")), S("container", "p", S("presence", "p"), leaf("q", "string"))),
        S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), S("leaf-list", "el", typ("string")), S("leaf", "eb", BITS), S("list", "il", S("key", "j"), leaf("j", "string"), leaf("w", "string"))),
        S("list", "uo", S("key", "k"), S("ordered-by", "user"), leaf("k", "int8"), leaf("v", "string")),
        S("list", "kl", S("config", "false"), leaf("v", "string"), i_config=False),
        S("choice", "ch", S("case", "one", leaf("c1", "string")), S("case", "two", leaf("c2", "string"), S("container", "c3", leaf("v", "string"))))]
STATE = HELP + XE + '''
def extra(x):
    g = getattr(x, "_pybind_generated_by", None)
    out = [str(x._default), x._path()] if hasattr(x, "_default") else []
    if g == "container":
        return out + [extra(getattr(x, n)) for n in x._pyangbind_elements]
    if g == "YANGListType":
        return out + [extra(x[k]) for k in x]
    return out
def all_of(x):
    return [snap(x), extra(x)]
def some(h):
    h.a = "v"
    h.bi = "p"
    h.ll = ["1", "2"]
    h.lb = ["p"]
    h.c.x = "v"
    h.c.cl = [1]
    h.c.p.q = "v"
    e = h.l.add("a")
    e.v = "v"
    e.el = ["x"]
    e.eb = "q"
    e.il.add("i").w = "w"
    h.l.add("b")
    h.uo.add(2)
    h.uo.add(1)
    h.c1 = "v"
    h._add_metadata("t", 1) if hasattr(h, "_add_metadata") else None
    return h
'''
# operations on h
OPS = {
    "leaf": "h.a = 'other'", "leaf reset": "h._unset_a()", "default": "h.d = 7", "default reset": "h._unset_d()", "refused": "attempt(h._set_d, 'x')", "enumeration": "h.en = 'B'", "union": "h.un = 4\nh.un = 'x'", "decimal": "h.de = '1.5'", "binary": "h.by = 'YQ=='", "empty": "h.em = True",
    "bits": "h.bi = 'q'", "bit added": "h.bi.add('q')", "bit removed": "h.bi.discard('p')\nh.bi.clear()", "bits emptied": "h.bi -= {'p'}", "bits updated": "h.bi.update(['p', 'q'])",
    "leaf-list": "h.ll = ['9']", "appended": "h.ll.append('3')", "inserted": "h.ll.insert(0, '3')", "removed": "h.ll.remove('1')", "popped": "h.ll.pop()", "deleted": "del h.ll[0]", "extended": "h.ll.extend(['5', '6'])", "leaf-list reset": "h._unset_ll()", "leaf-list of bits": "h.lb.append('q p')\nh.lb[0].add('q')",
    "deep": "h.c.x = 'other'\nh.c.cl.append(7)", "container reset": "h._unset_c()", "presence": "h.c.p._set_present(False)", "presence set": "h._unset_c()\nh.c.p._set_present()", "metadata": "h.c._add_metadata('n', 1)\nh.ll._add_metadata('n', 2)\nh.c.x = 'y'\nh.a._add_metadata('n', 3)",
    "entry added": "h.l.add('new').v = 'n'", "entry deleted": "h.l.delete('a')", "entry changed": "h.l['a'].v = 'other'\nh.l['a'].el.append('y')\nh.l['a'].eb.add('p')", "inner entry": "h.l['a'].il.add('new')\nh.l['b'].il.add('i').w = 'q'", "inner entry deleted": "h.l['a'].il.delete('i')", "list reset": "h._unset_l()", "refused entry": "attempt(h.uo.add, 'x')\nattempt(h.l.add, 'a')\nattempt(h.l.add, '')",
    "ordered entries": "h.uo.add(9)\nh.uo.delete(2)", "keyless": "h.kl.add()", "entry appended": "x = h.l._new_item()\nx.k = 'n'\nx.el.append('z')\nh.l.append(x)",
    "other case": "h.c2 = 'v'", "case container": "h.c3.v = 'v'\nh._unset_c3()", "refused attribute": "attempt(setattr, h, 'nothere', 1)\nattempt(setattr, h.c, 'nothere', 1)", "refused container": "attempt(h._set_c, 'x')",
}
LOADOPS = {
    "loaded": "lj({'a': 'n', 'll': ['7'], 'c': {'x': 'n', 'cl': [3]}, 'l': {'a': {'k': 'a', 'el': ['n'], 'il': {'j': {'j': 'j'}}}}}, h)", "overwritten": "lj({'c': {'x': 'n'}, 'l': {'z': {'k': 'z'}}, 'll': ['7']}, h, overwrite=True)",
    "loaded ietf": "li({'mod:a': 'n', 'mod:ll': ['7'], 'mod:l': [{'k': 'a', 'el': ['n']}], 'mod:c': {'@': {'m': 1}}, '@a': {'m': 2}}, h)", "loaded xml": "lx(E('mod', E('a', 'n'), E('ll', '7'), E('l', E('k', 'a'), E('el', 'n'))), h)",
    "dumped": "pbj.dumps(h)\npbj.dumps(h, mode='ietf', skip_subtrees=['/l', '/c'])\npybindIETFXMLEncoder.encode(h)\nh.get(filter=True)",
}
# two objects and the tree they are in
PAIRS = {
    "trees": ("h = some(mod())\n    o = some(mod())", BODY, {}), "a tree made later": ("h = some(mod())\n    o = None", BODY, {}), "an untouched tree": ("h = some(mod())\n    o = mod()", BODY, {}),
    "trees with path helpers": ("h = some(mod(path_helper=xh.YANGPathHelper()))\n    o = some(mod(path_helper=xh.YANGPathHelper()))", BODY, {"use_xpathhelper": True}),
    "entries": ("m = mod()\n    h = some(m.g.add('1'))\n    o = some(m.g.add('2'))", [S("list", "g", S("key", "gk"), leaf("gk", "string"), *BODY)], {}),
    "entries of two lists": ("m = mod()\n    n = mod()\n    h = some(m.g.add('1'))\n    o = some(n.g.add('1'))", [S("list", "g", S("key", "gk"), leaf("gk", "string"), *BODY)], {}),
    "an entry added later": ("m = mod()\n    h = some(m.g.add('1'))\n    o = None", [S("list", "g", S("key", "gk"), leaf("gk", "string"), *BODY)], {}),
    "containers alike": ("m = mod()\n    h = some(m.x)\n    o = some(m.y)", [S("container", "x", *BODY), S("container", "y", *BODY)], {}),
}


def pair(name):
    @rule("C35", name.replace(" ", "-"), 20, limit=250)
    def go(ctx):
        lab = ctx.lab()
        make, body, opts = PAIRS[name]
        ops = dict(OPS)
        if "entr" not in name and "alike" not in name:
            ops.update(LOADOPS)
        if opts:
            ops = {k: v for k, v in ops.items() if "entr" in k or "reset" in k or "case" in k or k in ("leaf", "leaf-list", "keyless", "deep", "presence", "loaded", "overwritten", "loaded xml")}
        out = [STATE, "import pyangbind.lib.xpathhelper as xh\n"]
        for i, (n, op) in enumerate(ops.items()):
            code = "\n    ".join(op.split("\n"))
            if "later" in name:
                fresh = "some(mod())" if "tree" in name else "some(mod().g.add('2'))"
                late = "some(mod())" if "tree" in name else "some(m.g.add('2'))"
                out.append("def f_%d():\n    b = all_of(%s)\n    %s\n    %s\n    return b == all_of(%s)\n" % (i, fresh, make, code, late))
            else:
                out.append("def f_%d():\n    %s\n    b = all_of(o)\n    %s\n    return b == all_of(o)\n" % (i, make, code))
        with ctx.instance(name, SITE):
            g = lab.bind("\n".join(out), M("mod", *body), **opts)
            for i, n in enumerate(ops):
                run(ctx, lab, g, n, "f_%d" % i, {}, True, site=SITE)


for _n in PAIRS:
    pair(_n)

# how a value is given, what is then changed in it, what is changed in the tree
GIVEN = {
    "list": ("x = ['1', '2']\n    m.ll = x", "x.append('9')\n    x[0] = '7'\n    del x[1]", "m.ll.append('8')\n    m.ll.remove('1')", "list(x)"),
    "leaf-list of another tree": ("n = some(mod())\n    x = n.ll\n    m.ll = x", "x.append('9')\n    x.remove('1')", "m.ll.append('8')\n    m.ll.remove('1')", "[str(i) for i in x]"),
    "own leaf-list": ("x = m.ll\n    m.ll = x", "x.append('9')\n    x.remove('1')", "m.ll.append('8')\n    m.ll.remove('1')", "[str(i) for i in x]"),
    "bits of another tree": ("n = some(mod())\n    x = n.bi\n    m.bi = x", "x.add('q')\n    x.discard('p')", "m.bi.add('q')\n    m.bi.discard('p')", "str(x)"),
    "set": ("x = set(['p'])\n    m.bi = x", "x.add('q')", "m.bi.add('q')", "sorted(x)"),
    "container": ("n = some(mod())\n    x = n.c\n    m.c = x", "x.x = 'n'\n    x.cl.append(9)\n    x.p.q = 'n'\n    x._unset_p()", "m.c.x = 'q'\n    m.c.cl.append(8)\n    m.c.p.q = 'q'\n    m.c._unset_x()", "all_of(x)"),
    "entry appended": ("x = m.l._new_item()\n    x.k = 'n'\n    x.v = 'v'\n    x.el = ['1']\n    x.eb = 'p'\n    m.l.append(x)", "x.v = 'n'\n    x.el.append('9')\n    x.eb.add('q')\n    x._unset_v()", "m.l['n'].v = 'q'\n    m.l['n'].el.append('8')\n    m.l['n'].eb.add('q')", "[str(x.k), str(x.v), [str(i) for i in x.el], str(x.eb)]"),
    "entry stored": ("x = m.l._new_item()\n    x.k = 'a'\n    x.v = 'v'\n    x.el = ['1']\n    x.eb = 'p'\n    m.l['a'] = x", "x.v = 'n'\n    x.el.append('9')\n    x.eb.add('q')\n    x._unset_v()", "m.l['a'].v = 'q'\n    m.l['a'].el.append('8')\n    m.l['a'].eb.add('q')", "[str(x.k), str(x.v), [str(i) for i in x.el], str(x.eb)]"),
    "inner list in an entry": ("x = m.l._new_item()\n    x.k = 'n'\n    x.il.add('i').w = 'w'\n    m.l.append(x)", "x.il.add('j')\n    x.il['i'].w = 'n'", "m.l['n'].il.add('z')\n    if 'i' in m.l['n'].il:\n        m.l['n'].il['i'].w = 'q'", "[[str(k), str(x.il[k].w)] for k in x.il]"),
    "list of another tree": ("n = some(mod())\n    x = n.l\n    m.l = x", "x.add('n').v = 'n'\n    x['a'].v = 'n'\n    x['a'].el.append('9')\n    x['a'].il.delete('i')\n    x.delete('b')", "m.l.add('q')\n    m.l['b'].v = 'q'\n    m.l['a'].eb.add('p')\n    m.l['a'].il.add('z')\n    m.l.delete('a')", "all_of(x)"),
    "own list": ("x = m.l\n    m.l = x", "x.add('n').v = 'n'\n    x['a'].v = 'n'\n    x['a'].il.delete('i')\n    x.delete('b')", "m.l.add('q')\n    m.l['b'].v = 'q'\n    m.l['a'].il.add('z')\n    m.l.delete('a')", "all_of(x)"),
    "list without keys": ("n = some(mod())\n    x = n.kl\n    x[x.add()]._set_v('v')\n    m._set_kl(x)", "x.add()\n    for k in list(x):\n        x[k]._set_v('n')", "m.kl.add()\n    for k in list(m.kl):\n        m.kl[k]._set_v('q')", "all_of(x)"),
    "case": ("n = some(mod())\n    x = n.c3\n    x.v = 'v'\n    m.c3 = x", "x.v = 'n'", "m.c3.v = 'q'", "all_of(x)"),
    "tree taken whole": ("n = some(mod())\n    x = n\n    m = mod(n)", "x.a = 'n'\n    x.ll.append('9')\n    x.c.x = 'n'\n    x.c.cl.append(9)\n    x.bi.add('q')\n    x.c2 = 'n'", "m.a = 'q'\n    m.ll.append('8')\n    m.c.x = 'q'\n    m.c.cl.append(8)\n    m.bi.add('q')\n    m.c2 = 'q'", "all_of(x)"),
    "document": ("x = {'ll': ['7'], 'c': {'cl': [3]}, 'l': {'z': {'k': 'z', 'el': ['n']}}, 'lb': ['p q']}\n    lj(x, m)", "x['ll'].append('9')\n    x['c']['cl'].append(9)\n    x['l']['z']['el'].append('9')\n    x['lb'].append('q')", "m.ll.append('8')\n    m.c.cl.append(8)\n    m.l['z'].el.append('8')\n    m.lb.append('p')", "[x['ll'], x['c'], x['l'], x['lb']]"),
    "ietf document": ("x = {'mod:ll': ['7'], 'mod:c': {'cl': [3]}, 'mod:l': [{'k': 'z', 'el': ['n']}], 'mod:lb': ['p q']}\n    li(x, m)", "x['mod:ll'].append('9')\n    x['mod:c']['cl'].append(9)\n    x['mod:l'][0]['el'].append('9')", "m.ll.append('8')\n    m.c.cl.append(8)\n    m.l['z'].el.append('8')", "[x['mod:ll'], x['mod:c'], x['mod:l'], x['mod:lb']]"),
    "metadata": ("x = {'mod:c': {'@': {'n': 2}}, 'mod:a': 'v', '@a': {'o': 3}}\n    li(x, m)", "x['mod:c']['@']['n'] = 9\n    x['@a']['o'] = 9", "m.c._add_metadata('n', 8)\n    m.c._add_metadata('r', 8)\n    m.a._add_metadata('o', 8)", "[x['mod:c'], x['@a']]"),
    "what get returned": ("x = m.get()", "x['a'] = 'n'\n    x['c']['x'] = 'n'\n    x['l']['a']['v'] = 'n'\n    del x['l']['b']\n    x['ll'].append('9')\n    x['c']['cl'].append(9)", "m._unset_ll()\n    m.l.delete('b')\n    m.c.x = 'q'\n    m.l.add('z')\n    m.ll.append('8')", "[sorted(x['l'].keys()), len(x['ll']), str(x['c']['x'])]"),
    "what dumps returned": ("x = pbj.dumps(m)", "x['a'] = 'n'\n    x['c']['x'] = 'n'\n    x['l']['a']['v'] = 'n'\n    del x['l']['b']\n    x['ll'].append('9')\n    x['c']['cl'].append(9)", "m._unset_ll()\n    m.l.delete('b')\n    m.c.x = 'q'\n    m.l.add('z')\n    m.ll.append('8')", "[sorted(x['l'].keys()), x['ll'], x['c'], x['l']['a']]"),
    "path": ("x = m.l['a']._path()", "y = list(x)\n    y[0] = 'n'", "m.l.add('z')", "x"),
}

@rule("C35", "given-values", 25, limit=250)
def given(ctx):
    lab = ctx.lab()
    out = [STATE]
    for i, (n, (giv, theirs, ours, look)) in enumerate(GIVEN.items()):
        out.append("def f_%d():\n    m = some(mod())\n    %s\n    b = all_of(m)\n    %s\n    return b == all_of(m)\n" % (i, giv, theirs))
        out.append("def g_%d():\n    m = some(mod())\n    %s\n    b = %s\n    %s\n    return b == %s\n" % (i, giv, look, ours, look))
    with ctx.instance("given values", SITE):
        g = lab.bind("\n".join(out), M("mod", *BODY))
        for i, n in enumerate(GIVEN):
            run(ctx, lab, g, n + " changed afterwards", "f_%d" % i, {}, True, site=SITE)
            run(ctx, lab, g, n + " kept when the tree changes", "g_%d" % i, {}, True, site=SITE)


# nodes of another tree of the same kind that are assigned whole
WHOLE = {"container": "c", "container in a container": "c.p", "list": "l", "ordered list": "uo", "list in an entry": "l['a'].il", "leaf-list": "ll", "leaf-list in an entry": "l['a'].el", "bits": "bi", "leaf-list of bits": "lb", "leaf": "a", "container with lists": "w", "container with a list in a container": "w.v",
         "list without keys": "kl"}
WBODY = BODY + [S("container", "w", leaf("a", "string"), S("container", "v", S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), S("list", "i", S("key", "j j2"), leaf("j", "int8"), leaf("j2", "string"), leaf("w", "string")))), S("list", "u", S("ordered-by", "user"), S("key", "k"), leaf("k", "int8"), leaf("v", "string")))]
MORE = """
def more(h):
    some(h)
    h.w.a = "v"
    e = h.w.v.l.add("b")
    e.v = "v"
    e.i.add(j=1, j2="x").w = "w"
    e.i.add(j=1, j2="a").w = "w"
    h.w.v.l.add("a")
    h.w.u.add(3).v = "v"
    h.w.u.add(1)
    k = h.kl.add()
    h.kl[k]._set_v("v")
    return h
"""


@rule("C35", "taken-whole", 35, limit=250)
def taken(ctx):
    """What is assigned whole is afterwards in the tree entirely, and instead of what was there."""
    lab = ctx.lab()
    out = [STATE, MORE]
    starts = {"an untouched tree": "m = mod()", "a tree with others": "m = some(mod())\n    m.c.x = 'old'\n    m.l.add('old').v = 'old'\n    m.uo.add(7)\n    m.l['a'].il.add('old')\n    m.w.v.l.add('old')\n    m.w.u.add(0)", "itself": "m = n"}
    todo = []
    for sn, st in starts.items():
        for n, x in WHOLE.items():
            if "['a']" in x and sn.startswith("an un"):
                st2 = st + "\n    m.l.add('a')"
            else:
                st2 = st
            at, _, last = x.rpartition(".")
            fn = "f_%d" % len(todo)
            out.append("def %s():\n    n = more(mod())\n    %s\n    w = snap(n.%s)\n    m%s._set_%s(n.%s)\n    return snap(m.%s) == w, snap(n.%s) == w, %s\n" % (fn, st2, x, "." + at if at else "", last, x, x, x, "list(m.%s) == list(n.%s)" % (x, x) if "list" in n and "container" not in n and "keys" not in n else "True"))
            todo.append(("%s of %s" % (n, sn), fn))
    with ctx.instance("taken whole", SITE):
        g = lab.bind("\n".join(out), M("mod", *WBODY))
        for n, fn in todo:
            run(ctx, lab, g, n, fn, {}, (True, True, True), site=SITE)
