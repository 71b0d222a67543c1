"""C33: every node tells its place in the data and the schema node it is of."""

from .common import *
from .c10 import HEAD as PRELUDE

explain("C33", "A schema with every kind of node in every kind of place (top, containers, lists in lists, keyless lists, cases, nodes of a submodule and of augmenting modules, names with hyphens, dots and underscores and names that are reserved in Python, inputs and outputs of RPCs, notifications) is built abstractly; what every node of it says of itself (its path with the keys of the entries it is in, its YANG path and name, its kind, the name of its type as it is written in the module, whether it is a key, the module that defined it and that module's namespace, and the arguments of the extensions asked for) is compared with what the schema says, after creation, and again after assignments, resets, entries added, assigned, deleted and added again, containers assigned whole and documents loaded.")

SITE = YT + "YANGDynClass"
X = lambda arg="arg", name="x", module="ext": S((module, name), arg)
TELL = PRELUDE + '''
def tell(x):
    return [x._path(), x._yang_path(), x.yang_name(), x._is_leaf, x._is_container, x._extensions()]
def schema(x):
    return [x._namespace, x._defining_module, x._yang_type, x._is_keyval]
def entry(l, k):
    return l[k] if k in l else l.add(k)
def only(l):
    if len(l) == 0:
        l.add()
    return list(l.values())[0]
'''
KIDS = [leaf("a", "string"), leaf("a-b", "int8", X()), S("leaf", "class", typ("boolean"), X("1"), X("2", "y"), X("no", "x", "other-ext")), leaf("a.c", "uint64"), leaf("_u", "string"),
        S("leaf", "t", typ("tt")), S("leaf", "en", typ("enumeration", S("enum", "p"))), S("leaf", "un", typ("union", typ("int8"), typ("string")), X()), S("leaf", "de", typ("decimal64", S("fraction-digits", "2"))), S("leaf", "bt", typ("bits", S("bit", "b"))), leaf("bi", "binary"), leaf("e", "empty"),
        S("leaf", "r", typ("leafref", S("path", "../a")), X("ref")), S("leaf-list", "ll", typ("string"), X("many")), S("leaf-list", "l8", typ("tt")),
        S("container", "c", X("on c"), leaf("v", "string"), S("container", "d", leaf("v", "string", X("deep")))),
        S("list", "l", S("key", "k"), X("on l"), leaf("k", "string", X("on k")), leaf("v", "int16"), S("container", "in", leaf("w", "string")), S("list", "m", S("key", "x-1 y"), leaf("x-1", "string"), leaf("y", "int8"), leaf("z", "string"), S("leaf-list", "zl", typ("int8")))),
        S("list", "kl", S("config", "false"), leaf("v", "string"), i_config=False),
        S("choice", "ch", S("case", "one", leaf("c1", "string", X("in a case")), S("container", "c2", leaf("v", "string"))), S("case", "two", S("list", "c3", S("key", "k"), leaf("k", "string"), leaf("v", "string")), S("choice", "inner", S("case", "i", leaf("c4", "int32")))))]
E1, E2, K1 = "entry(%s.l, 'a b')", "entry(entry(%s.l, 'a b').m, 'p/q 7')", "only(%s.kl)"
# how to come by a node, path below the place, kind: (leaf, container), type name, key?, extensions
NODES = [
    ("{h}.a", ["a"], True, False, "string", None), ("{h}.a_b", ["a-b"], True, False, "int8", {"ext": {"x": "arg"}}), ("{h}.class_", ["class"], True, False, "boolean", {"ext": {"x": "1", "y": "2"}}), ("{h}.a_c", ["a.c"], True, False, "uint64", None), ("{h}._get__u()", ["_u"], True, False, "string", None),
    ("{h}.t", ["t"], True, False, "tt", None), ("{h}.en", ["en"], True, False, "enumeration", None), ("{h}.un", ["un"], True, False, "union", {"ext": {"x": "arg"}}), ("{h}.de", ["de"], True, False, "decimal64", None), ("{h}.bt", ["bt"], True, False, "bits", None), ("{h}.bi", ["bi"], True, False, "binary", None), ("{h}.e", ["e"], True, False, "empty", None),
    ("{h}.r", ["r"], True, False, "leafref", {"ext": {"x": "ref"}}), ("{h}.ll", ["ll"], False, False, "string", {"ext": {"x": "many"}}), ("{h}.l8", ["l8"], False, False, "tt", None),
    ("{h}.c", ["c"], False, "container", "container", {"ext": {"x": "on c"}}), ("{h}.c.v", ["c", "v"], True, False, "string", None), ("{h}.c.d", ["c", "d"], False, "container", "container", None), ("{h}.c.d.v", ["c", "d", "v"], True, False, "string", {"ext": {"x": "deep"}}),
    ("{h}.l", ["l"], False, "list", "list", {"ext": {"x": "on l"}}), ("{e}", ["l[k='a b']"], False, "container", 0, {"ext": {"x": "on l"}}), ("{e}.k", ["l[k='a b']", "k"], True, False, "string", {"ext": {"x": "on k"}}), ("{e}.v", ["l[k='a b']", "v"], True, False, "int16", None), ("{e}.in_", ["l[k='a b']", "in"], False, "container", "container", None), ("{e}.in_.w", ["l[k='a b']", "in", "w"], True, False, "string", None),
    ("{e}.m", ["l[k='a b']", "m"], False, "list", "list", None), ("{f}", ["l[k='a b']", "m[x-1='p/q' y='7']"], False, "container", 0, None), ("{f}.x_1", ["l[k='a b']", "m[x-1='p/q' y='7']", "x-1"], True, False, "string", None), ("{f}.y", ["l[k='a b']", "m[x-1='p/q' y='7']", "y"], True, False, "int8", None), ("{f}.z", ["l[k='a b']", "m[x-1='p/q' y='7']", "z"], True, False, "string", None), ("{f}.zl", ["l[k='a b']", "m[x-1='p/q' y='7']", "zl"], False, False, "int8", None),
    ("{h}.kl", ["kl"], False, "list", "list", None),
    ("{h}.c1", ["c1"], True, False, "string", {"ext": {"x": "in a case"}}), ("{h}.c2", ["c2"], False, "container", "container", None), ("{h}.c2.v", ["c2", "v"], True, False, "string", None), ("{h}.c3", ["c3"], False, "list", "list", None), ("{h}.c4", ["c4"], True, False, "int32", None),
]
KEYS = ("{e}.k", "{f}.x_1", "{f}.y")
# what is done before they are asked (with h the place)
HISTORY = {
    "made": "",
    "set": "{h}.a = 'v'\n{h}.a_b = 5\n{h}.class_ = True\n{h}.un = 'x'\n{h}.de = '1.5'\n{h}.bt = 'b'\n{h}.ll.append('q')\n{h}.c.v = 'v'\n{h}.c.d.v = 'v'\n{e}.v = 3\n{f}.z = 'z'\n{h}.c1 = 'v'\n{h}.c4 = 4",
    "set and reset": "{h}.a = 'v'\n{h}._unset_a()\n{h}.a_b = 5\n{h}._unset_a_b()\n{h}._unset_class()\n{h}._unset_en()\n{h}._unset_un()\n{h}.ll.append('q')\n{h}._unset_ll()\n{h}.c.d.v = 'v'\n{h}._unset_c()\n{e}.v = 3\n{e}._unset_v()\n{h}._unset_c1()\n{h}._unset_c3()".replace("_unset_class()", "_unset_class_()"),
    "entries added again": "{e}.v = 3\n{f}.z = 'z'\n{e}.m.delete('p/q 7')\n{h}.l.delete('a b')\n{h}.l.add('other')\n{h}._unset_l()",
    "assigned whole": "n = mod()\n{n}.c.v = 'v'\n{n}.c.d.v = 'w'\n{n}.l.add('a b').v = 7\n{n}.ll.append('w')\n{h}.c = {n}.c\n{h}.l = {n}.l\n{h}.ll = {n}.ll",
    "entries appended": "x = {h}.l._new_item()\nx.k = 'a b'\nx.v = 7\nx.in_.w = 'w'\ny = x.m._new_item()\ny.x_1 = 'p/q'\ny.y = 7\ny.z = 'z'\n{h}.l.append(x)\n{h}.l['a b'].m.append(y)",
    "entries stored": "x = {h}.l._new_item()\nx.k = 'a b'\nx.v = 7\ny = x.m._new_item()\ny.x_1 = 'p/q'\ny.y = 7\ny.zl.append(3)\n{h}.l['a b'] = x\n{h}.l['a b'].m['p/q 7'] = y",
    "an entry replaced": "x = {h}.l._new_item()\nx.k = 'a b'\nx.v = 7\ny = x.m._new_item()\ny.x_1 = 'p/q'\ny.y = 7\nx.m.append(y)\n{e}.v = 4\n{f}.z = 'old'\n{h}.l['a b'] = x\n{f}.z = 'q'",
    "a refused value": "try:\n    {h}.a_b = 'none'\nexcept ValueError:\n    pass\ntry:\n    {h}.en = 'none'\nexcept ValueError:\n    pass\ntry:\n    {h}.c = 'none'\nexcept ValueError:\n    pass",
}
PLACES = {"top": ([], KIDS, "m"), "container": (["o-1"], [S("container", "o-1", *KIDS)], "m.o_1"), "entry": (["o[i='1' j='x']"], [S("list", "o", S("key", "i j"), leaf("i", "int8"), leaf("j", "string"), *KIDS)], "entry(m.o, '1 x')")}
TD = S("typedef", "tt", typ("int8"))
EXT = {"pybind_interested_exts": ["ext"]}


def spell(t, h):
    return t.format(h=h, e=E1 % h, f=E2 % h, n=h.replace("m.", "n.", 1) if h != "m" else "n")


def place(name):
    @rule("C33", "nodes-" + name, 30 * len(HISTORY), limit=250)
    def _(ctx):
        lab = ctx.lab()
        above, kids, h = PLACES[name]
        out, todo = [TELL], []
        for j, (hn, code) in enumerate(HISTORY.items()):
            for i in range(0, len(NODES), 8):
                part = NODES[i:i + 8]
                body = ["m = mod()"] + spell(code, h).replace("entry(n.o", "entry(n.o").split("\n")
                body.append("return [%s]" % ", ".join("tell(%s) + schema(%s)" % ((spell(n[0], h),) * 2) for n in part))
                out.append("def f_%d_%d():\n    %s\n" % (j, i, "\n    ".join(b for b in body if b)))
                todo.append((j, i, hn, part))
        g = lab.bind("\n".join(out), M("mod", TD, *kids), **EXT)
        for j, i, hn, part in todo:
            wants = []
            for c, p, lf, cont, typename, ext in part:
                p = above + p
                own = p[-1].split("[")[0]
                w = [p, "/" + "/".join(p), own, lf, cont, ext]
                # an entry is not a node of the schema, apart from its list
                w += ["urn:mod", "mod", typename, c in KEYS] if typename != 0 else [ANY] * 4
                wants.append(("%s, %s" % (c.format(h="", e="l['a b']", f="l['a b'].m['p/q 7']").lstrip("."), hn), w))
            run_each(ctx, lab, g, "f_%d_%d" % (j, i), {}, wants, SITE)


for _n in PLACES:
    place(_n)


ORIGIN = '''
def origin(x):
    return [x._path(), x.yang_name(), x._namespace, x._defining_module, x._yang_type]
'''


@rule("C33", "several-modules", 12, limit=150)
def several(ctx):
    """Nodes of submodules are of the module, nodes that other modules added are theirs, at any depth."""
    lab = ctx.lab()
    inner = S("container", "h", S("leaf", "i", typ("string"), aug="other"), S("list", "hl", S("key", "k"), S("leaf", "k", typ("string"), aug="other"), S("leaf", "back", typ("int8"), aug="third"), aug="other"), aug="other")
    md = M("mod", S("include", "sub"), leaf("own", "string"), S("container", "c", leaf("a", "string"), S("leaf", "g", typ("string"), aug="other"), inner), S("list", "l", S("key", "k"), leaf("k", "string"), S("leaf-list", "gl", typ("int8"), aug="third")), prefix="mp")
    sub = M("sub", leaf("from-sub", "string"), S("container", "sc", leaf("v", "int8")), prefix="mp", keyword="submodule", belongs_to="mod")
    g = lab.bind(TELL + ORIGIN + '''
def f():
    m = mod()
    h = entry(m.c.h.hl, '1')
    return [origin(x) for x in (m.own, m.c, m.c.a, m.c.g, m.c.h, m.c.h.i, m.c.h.hl, h.k, h.back, m.l, entry(m.l, 'x').k, entry(m.l, 'x').gl, m.from_sub, m.sc, m.sc.v)]
''', M("other", prefix="op"), M("third", prefix="tp"), md, sub, only=["mod"])
    W = [("m.own", ["own"], "mod", "string"), ("m.c", ["c"], "mod", "container"), ("m.c.a", ["c", "a"], "mod", "string"), ("m.c.g", ["c", "g"], "other", "string"), ("m.c.h", ["c", "h"], "other", "container"), ("m.c.h.i", ["c", "h", "i"], "other", "string"),
         ("m.c.h.hl", ["c", "h", "hl"], "other", "list"), ("its k", ["c", "h", "hl[k='1']", "k"], "other", "string"), ("its back", ["c", "h", "hl[k='1']", "back"], "third", "int8"), ("m.l", ["l"], "mod", "list"), ("m.l k", ["l[k='x']", "k"], "mod", "string"), ("m.l gl", ["l[k='x']", "gl"], "third", "int8"),
         ("m.from_sub", ["from-sub"], "mod", "string"), ("m.sc", ["sc"], "mod", "container"), ("m.sc.v", ["sc", "v"], "mod", "int8")]
    run_each(ctx, lab, g, "f", {}, [(n, [p, p[-1].split("[")[0], "urn:" + md_, md_, t]) for n, p, md_, t in W], SITE)


@rule("C33", "operations", 8, limit=150)
def operations(ctx):
    """Inputs and outputs of RPCs and what notifications hold are below the name of the operation."""
    import re

    body = lambda: [leaf("a", "string"), S("container", "c", leaf("b", "string")), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "int8"))]
    for kw, opt in (("rpc", "build_rpcs"), ("notification", "build_notifications")):
        lab = ctx.lab()
        op = S(kw, "x-op", S("input", "input", *body()), S("output", "output", *body())) if kw == "rpc" else S(kw, "x-op", *body())
        txt = lab.text(M("mod", op, prefix="m"), **{opt: True})
        defs = dict(re.findall(r"^class (\w+)\([^)]*\):(.*?)(?=^class |\Z)", txt, re.M | re.S))
        names = [c for c, t in defs.items() if "_yang_name = 'x-op'" in t]
        if len(names) != 1:
            raise Undecided("classes %s" % names)
        for part in (("input", "output") if kw == "rpc" else ("",)):
            e = "o." + part if part else "o"
            g = lab.load(txt, TELL + ORIGIN + "def below(x):\n    o = origin(x)\n    while o[0][0] != 'x-op':\n        o[0] = o[0][1:]\n    return o\ndef f():\n    o = %s()\n    h = %s\n    return [below(x) for x in (h.a, h.c, h.c.b, h.l, entry(h.l, '1').k, entry(h.l, '1').v)]\n" % (names[0], e))
            W = [("a", ["a"], "string"), ("c", ["c"], "container"), ("c.b", ["c", "b"], "string"), ("l", ["l"], "list"), ("l k", ["l[k='1']", "k"], "string"), ("l v", ["l[k='1']", "v"], "int8")]
            top = ["x-op"] + ([part] if part else [])
            run_each(ctx, lab, g, "f", {}, [("%s %s, %s" % (kw, part or "itself", n), [top + p, p[-1].split("[")[0], "urn:mod", "mod", t]) for n, p, t in W], SITE)
