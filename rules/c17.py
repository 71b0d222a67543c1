"""C17: a leafref that requires an instance only takes what exists at its target."""

from .common import *
from .c10 import HEAD

explain("C17", "Modules whose leafrefs point at every kind of target (keys, other leaves, leaf-lists, leaves of containers in entries, nested entries; by absolute, prefixed and relative paths and paths with predicates; as a leaf, an entry of a leaf-list, a list key, through a typedef, or as a member of a union) are bound with a path helper. Trees with no, one and several entries, and trees after histories of changes, are given values: those that a node at the path holds, those that none holds, what nodes that are not set read as, and symbolic texts. Where a value is refused the target and the leafref must be as before; where it is accepted they must hold it.")

REF = YT + "ReferenceType.ReferencePathType.__init__"
HELP = HEAD + '''
import pyangbind.lib.xpathhelper as xh
def new():
    return mod(path_helper=xh.YANGPathHelper())
def tried(f, *a):
    try:
        f(*a)
    except ValueError:
        return "refused"
    return "taken"
def added(f, *a):
    # the method that adds an entry raises KeyError for a key that is refused
    try:
        f(*a)
    except (ValueError, KeyError):
        return "refused"
    return "taken"
def entries(m, n):
    for i in range(n):
        e = m.l.add("k%d" % i)
        e.v = "v%d" % i
        e.n = i + 1
        e.ll = ["x%d" % i, "y%d" % i]
        e.c.x = "c%d" % i
        e.il.add("j%d" % i).w = "w%d" % i
    return m
def look(m):
    return [(e.k, e.v, e.n, [x for x in e.ll], e.c.x, [(j.j, j.w) for j in e.il.values()]) for e in m.l.values()]
'''
LIST = S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), leaf("n", "int8"), S("leaf-list", "ll", typ("string")), S("container", "c", leaf("x", "string")), S("list", "il", S("key", "j"), leaf("j", "string"), leaf("w", "string")))
# target: path, value held by entry i, value that is a mistake
TARGETS = {
    "key": ("/l/k", "'k%d'", ["'k9'", "'v0'", "''", "'[]'"]), "leaf": ("/l/v", "'v%d'", ["'v9'", "'k0'", "''"]), "integer": ("/l/n", "%d + 1", ["9", "0", "''", "'x'"]), "leaf-list": ("/l/ll", "'x%d'", ["'x9'", "''", "\"['x0', 'y0']\"", "['x0']", "'0'"]), "last of leaf-list": ("/l/ll", "'y%d'", ["'y9'"]),
    "leaf of a container": ("/l/c/x", "'c%d'", ["'c9'", "''"]), "inner key": ("/l/il/j", "'j%d'", ["'j9'", "'k0'"]), "inner leaf": ("/l/il/w", "'w%d'", ["'w9'", "''"]),
}
FORMS = {"absolute": lambda p: p, "prefixed": lambda p: p.replace("/", "/p:"), "relative": lambda p: ".." + p, "relative prefixed": lambda p: ".." + p.replace("/", "/p:")}


def ref(name, path, *more):
    return S("leaf", name, typ("leafref", S("path", path), *more))


def schema(path, *more, kind="leaf"):
    t = typ("leafref", S("path", path), *more)
    n = {"leaf": S("leaf", "r", t), "typedef": S("leaf", "r", typ("t")), "leaf-list": S("leaf-list", "r", t), "union": S("leaf", "r", typ("union", typ("int16", S("range", "100..200")), t)), "case": S("choice", "ch", S("case", "one", S("leaf", "r", t)), S("case", "two", leaf("o", "string"))), "key": S("list", "r", S("key", "q"), S("leaf", "q", t))}[kind]
    return M("mod", *([S("typedef", "t", t)] if kind == "typedef" else []), LIST, n, prefix="p")


TRY = {"key": "added"}
SETS = {"leaf": "m._set_r", "typedef": "m._set_r", "leaf-list": "m.r.append", "union": "m._set_r", "case": "m._set_r", "key": "m.r.add"}
READS = {"leaf": "str(m.r)", "typedef": "str(m.r)", "leaf-list": "str(m.r[0])", "union": "str(m.r)", "case": "str(m.r)", "key": "[str(k) for k in m.r.keys()][0]"}


def values(ctx, names, kind="leaf", form="absolute", counts=(0, 1, 2)):
    lab = ctx.lab()
    for n in names:
        path, held, bad = TARGETS[n]
        with ctx.instance("%s %s" % (n, kind), REF):
            out, todo = [HELP], []
            for c in counts:
                for i in range(c + 1):
                    v = held % i
                    out.append("def f_%d():\n    m = entries(new(), %d)\n    r = %s(%s, %s)\n    return [r, look(m) == look(entries(new(), %d)), %s if r == 'taken' else str(%s)]\n" % (len(todo), c, TRY.get(kind, "tried"), SETS[kind], v, c, READS[kind], v))
                    todo.append(("held by entry %d of %d" % (i, c) if i < c else "held by none of %d" % c, "taken" if i < c else "refused", eval(v)))
                for v in bad:
                    out.append("def f_%d():\n    m = entries(new(), %d)\n    r = %s(%s, %s)\n    return [r, look(m) == look(entries(new(), %d)), str(%s)]\n" % (len(todo), c, TRY.get(kind, "tried"), SETS[kind], v, c, v))
                    todo.append(("%s with %d entries" % (v, c), "refused", eval(v)))
            g = lab.bind("\n".join(out), schema(FORMS[form](path), kind=kind), use_xpathhelper=True)
            for i, (what, want, v) in enumerate(todo):
                run_each(ctx, lab, g, "f_%d" % i, {}, [("%s %s %s: %s" % (kind, form, n, what), want), ("%s %s %s: %s, target kept" % (kind, form, n, what), True), ("%s %s %s: %s, reads" % (kind, form, n, what), str(v))], site=REF)


@rule("C17", "targets-1", 60, limit=250)
def targets1(ctx):
    values(ctx, ["key", "leaf", "integer"])


@rule("C17", "targets-2", 60, limit=250)
def targets2(ctx):
    values(ctx, ["leaf-list", "last of leaf-list", "leaf of a container"])


@rule("C17", "targets-3", 40, limit=250)
def targets3(ctx):
    values(ctx, ["inner key", "inner leaf"])


def paths(f):
    @rule("C17", "paths-" + f.replace(" ", "-"), 20, limit=250)
    def go(ctx):
        values(ctx, ["key", "leaf", "leaf-list"], form=f, counts=(2,))


for _f in FORMS:
    if _f != "absolute":
        paths(_f)


def kinds(k):
    @rule("C17", "as-" + k, 20, limit=250)
    def go(ctx):
        values(ctx, ["key", "leaf", "leaf-list"], kind=k, counts=(1, 2))


for _k in ("typedef", "leaf-list", "union", "case", "key"):
    kinds(_k)


@rule("C17", "any-text", 5, limit=200)
def texts(ctx):
    lab = ctx.lab()
    for n, body, ok in (("no entry", "pass", []), ("one entry", "m.l.add('a').v = 'p'", ["a"]), ("two entries", "m.l.add('a').v = 'p'\n    m.l.add('b').v = 'q'", ["a", "b"])):
        for tgt, path, trans in (("key", "/l/k", lambda x: x), ("leaf", "/l/v", lambda x: {"a": "p", "b": "q"}[x])):
            acc = [trans(x) for x in ok]
            D = HELP + "def f(v):\n    m = new()\n    %s\n    r = tried(m._set_r, v)\n    return [r == ('taken' if v in %r else 'refused'), len(m.l), r == 'refused' or str(m.r) == v]\n" % (body, acc)
            with ctx.instance("%s %s" % (tgt, n), REF):
                g = lab.bind(D, schema(path), use_xpathhelper=True)
                run(ctx, lab, g, "any text for a %s, %s" % (tgt, n), "f", {"v": "str"}, [True, len(ok), True], vals("a", "b", "p", "q", "", "zz", "0"), site=REF)


# what is changed before the value is given, whether 'k0' (the key), 'v0' (the leaf) and 'x0' (the leaf-list) are taken
HIST = {
    "nothing": ("pass", 1, 1, 1), "entry deleted": ("m.l.delete('k0')", 0, 0, 0), "entry deleted and added": ("m.l.delete('k0')\n    m.l.add('k0')", 1, 0, 0), "other entry deleted": ("m.l.delete('k1')", 1, 1, 1), "leaf unset": ("m.l['k0']._unset_v()", 1, 0, 1), "leaf changed": ("m.l['k0'].v = 'other'", 1, 0, 1), "leaf changed to what it was": ("m.l['k0'].v = 'other'\n    m.l['k0'].v = 'v0'", 1, 1, 1), "leaf set elsewhere": ("m.l['k0'].v = 'other'\n    m.l['k1'].v = 'v0'", 1, 1, 1),
    "leaf-list entry removed": ("m.l['k0'].ll.remove('x0')", 1, 1, 0), "leaf-list replaced": ("m.l['k0'].ll = ['q']", 1, 1, 0), "leaf-list replaced by more": ("m.l['k0'].ll = ['q', 'x0', 'r']", 1, 1, 1), "leaf-list unset": ("m.l['k0']._unset_ll()", 1, 1, 0), "leaf-list appended": ("m.l['k0'].ll.append('z')", 1, 1, 1), "list emptied": ("m._unset_l()", 0, 0, 0), "list emptied and filled": ("m._unset_l()\n    entries(m, 1)", 1, 1, 1),
    "list emptied by deletion": ("for k in list(m.l.keys()):\n        m.l.delete(k)", 0, 0, 0), "refused change": ("tried(m.l['k0']._set_n, 'no')", 1, 1, 1), "refused entry": ("added(m.l.add, 'k0')", 1, 1, 1), "another tree": ("entries(new(), 3)._unset_l()", 1, 1, 1), "reference taken before": ("m._set_r(%s)\n    m.l['k0'].n = 9", 1, 1, 1), "reference unset": ("m._set_r(%s)\n    m._unset_r()", 1, 1, 1),
    "loaded": ("pybindJSONDecoder.load_json({'l': {'k5': {'k': 'k5'}}}, None, None, obj=m)", 1, 1, 1), "overwritten": ("pybindJSONDecoder.load_json({'l': {'k0': {'k': 'k0', 'v': 'n'}}}, None, None, obj=m, overwrite=True)", 1, 0, 0), "document with the entry": ("m._unset_l()\n    pybindJSONDecoder.load_json({'l': {'k0': {'k': 'k0', 'v': 'v0', 'll': ['x0']}}}, None, None, obj=m)", 1, 1, 1),
}


def histories(j, what, path, value):
    @rule("C17", "histories-" + what, 40, limit=250)
    def go(ctx):
        lab = ctx.lab()
        out = [HELP, "from pyangbind.lib.serialise import pybindJSONDecoder\n"]
        for i, (n, h) in enumerate(HIST.items()):
            op = h[0].replace("%s", value)
            for c in (2,) if "k1" in op else (1, 2):
                out.append("def f_%d_%d():\n    m = entries(new(), %d)\n    %s\n    b = look(m)\n    return [tried(m._set_r, %s), b == look(m)]\n" % (i, c, c, op, value))
        with ctx.instance(what, REF):
            g = lab.bind("\n".join(out), schema(path), use_xpathhelper=True)
            for i, (n, h) in enumerate(HIST.items()):
                for c in (2,) if "k1" in h[0] else (1, 2):
                    run_each(ctx, lab, g, "f_%d_%d" % (i, c), {}, [("%s of %d" % (n, c), "taken" if h[1 + j] else "refused"), ("%s of %d, target kept" % (n, c), True)], site=REF)


histories(0, "key", "/l/k", "'k0'")
histories(1, "leaf", "/l/v", "'v0'")
histories(2, "leaf-list", "/l/ll", "'x0'")


@rule("C17", "not-set", 15, limit=200)
def unset(ctx):
    """What a leaf that is not set reads as is no instance; a default is."""
    lab = ctx.lab()
    L = S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), leaf("n", "int8"), leaf("b", "boolean"), S("leaf", "d", typ("string"), S("default", "dd")), S("leaf", "de", typ("string"), S("default", "")), S("leaf", "dz", typ("int8"), S("default", "0")), S("leaf", "df", typ("boolean"), S("default", "false")), S("leaf", "dt", typ("boolean"), S("default", "true")), S("leaf-list", "ll", typ("string")), leaf("bt", "bits", S("bit", "x")), leaf("e", "empty"))
    cases = [("v", "''", 0), ("n", "0", 0), ("n", "'0'", 0), ("b", "False", 0), ("b", "'false'", 0), ("d", "'dd'", 1), ("d", "''", 0), ("d", "'other'", 0), ("de", "''", 1), ("de", "'x'", 0), ("dz", "0", 1), ("dz", "'0'", 1), ("dz", "1", 0), ("df", "False", 1), ("df", "True", 0), ("dt", "True", 1), ("dt", "False", 0), ("ll", "''", 0), ("ll", "'[]'", 0), ("bt", "''", 0), ("e", "False", 0)]
    for t in sorted({c[0] for c in cases}):
        mine = [c for c in cases if c[0] == t]
        out, todo = [HELP], []
        for _, v, ok in mine:
            for c in (1, 2):
                out.append("def f_%d():\n    m = new()\n    for i in range(%d):\n        m.l.add('k%%d' %% i)\n    return [tried(m._set_r, %s), pbj.dumps(m.l, filter=True) == {k: {'k': k} for k in m.l.keys()}]\n" % (len(todo), c, v))
                todo.append(("leaf %s: %s with %d entries" % (t, v, c), "taken" if ok else "refused"))
        with ctx.instance("not set " + t, REF):
            g = lab.bind("\n".join(out), M("mod", L, ref("r", "/l/" + t)), use_xpathhelper=True)
            for i, (n, w) in enumerate(todo):
                run_each(ctx, lab, g, "f_%d" % i, {}, [(n, w), (n + ", target kept", True)], site=REF)


@rule("C17", "predicates", 20, limit=250)
def predicates(ctx):
    """Only the entry that a predicate selects is referred to."""
    lab = ctx.lab()
    SRC = S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), S("leaf-list", "ll", typ("string")))
    for tgt, held in (("v", "v"), ("ll", "x"), ("k", "k")):
        m = M("mod", SRC, leaf("which", "string"), S("container", "c", leaf("w", "string"), ref("r", "/l[k=current()/../w]/" + tgt)), ref("r", "/l[k='k1']/" + tgt), ref("s", "/l[k=current()/../which]/" + tgt))
        D = [HELP, "def fill(n):\n    m = new()\n    for i in range(n):\n        e = m.l.add('k%d' % i)\n        e.v = 'v%d' % i\n        e.ll = ['x%d' % i]\n    return m\ndef state(m):\n    return [(e.k, e.v, [x for x in e.ll]) for e in m.l.values()]\n"]
        todo = []
        for c in (1, 2):
            for i in range(3):
                D.append("def f_%d():\n    m = fill(%d)\n    b = state(m)\n    return [tried(m._set_r, '%s%d'), b == state(m)]\n" % (len(todo), c, held, i))
                todo.append(("constant predicate, %s: value of entry %d of %d" % (tgt, i, c), "taken" if i == 1 and c > 1 else "refused"))
                for w in (0, 1):
                    if w >= c:
                        continue
                    for where, sel, st in (("at the top", "m.which = 'k%d'" % w, "m._set_s"), ("in a container", "m.c.w = 'k%d'" % w, "m.c._set_r")):
                        D.append("def f_%d():\n    m = fill(%d)\n    %s\n    b = state(m)\n    return [tried(%s, '%s%d'), b == state(m)]\n" % (len(todo), c, sel, st, held, i))
                        todo.append(("current() %s selects %d, %s: value of entry %d of %d" % (where, w, tgt, i, c), "taken" if i == w else "refused"))
        with ctx.instance("predicates " + tgt, REF):
            g = lab.bind("\n".join(D), m, use_xpathhelper=True)
            for i, (n, w) in enumerate(todo):
                run_each(ctx, lab, g, "f_%d" % i, {}, [(n, w), (n + ", target kept", True)], site=REF)


@rule("C17", "taken-as-given", 20, limit=200)
def free(ctx):
    """Without require-instance, or without a path helper, a value is taken as it is."""
    lab = ctx.lab()
    VALUES = ["'k0'", "'nope'", "''", "5", "'v0'"]
    for n, opts, make, more in (("no instance required", {"use_xpathhelper": True}, "mod(path_helper=xh.YANGPathHelper())", [S("require-instance", "false")]), ("no path helper given", {"use_xpathhelper": True}, "mod()", []), ("no instance required, no path helper given", {"use_xpathhelper": True}, "mod()", [S("require-instance", "false")]), ("no path helper", {}, "mod()", []), ("no path helper, instance required", {}, "mod()", [S("require-instance", "true")])):
        for kind in ("leaf", "leaf-list", "typedef", "key"):
            D = [HELP]
            todo = []
            for v in VALUES:
                if v == "5" and kind == "leaf-list":
                    continue
                for c in (0, 1):
                    D.append("def f_%d():\n    m = entries(%s, %d)\n    b = look(m)\n    r = tried(%s, %s)\n    return [r, b == look(m), %s == str(%s)]\n" % (len(todo), make, c, SETS[kind], v, READS[kind], v))
                    todo.append("%s, %s: %s with %d entries" % (n, kind, v, c))
            with ctx.instance("%s, %s" % (n, kind), REF):
                g = lab.bind("\n".join(D), schema("/l/k", *more, kind=kind), **opts)
                for i, t in enumerate(todo):
                    if kind == "key" and ": ''" in t:
                        continue
                    run(ctx, lab, g, t, "f_%d" % i, {}, ["taken", True, True], site=REF)


@rule("C17", "refused", 10, limit=200)
def refused(ctx):
    """A value that is refused leaves what the leafref held."""
    lab = ctx.lab()
    for kind in ("leaf", "leaf-list", "typedef", "union", "case", "key"):
        D = HELP + "tried_ = tried\n" + "def f():\n    tried = %s\n    m = entries(new(), 2)\n    a = tried(%s, 'k1')\n    b = tried(%s, 'nope')\n    return [a, b, %s, len(m.r) if %r else 1]\ndef g():\n    tried = %s\n    m = entries(new(), 1)\n    b = tried(%s, 'nope')\n    return [b, 'r' in pbj.dumps(m)]\n" % (TRY.get(kind, "tried_"), SETS[kind], SETS[kind], READS[kind], kind in ("leaf-list", "key"), TRY.get(kind, "tried_"), SETS[kind])
        with ctx.instance("refused " + kind, REF):
            g = lab.bind(D, schema("/l/k", kind=kind), use_xpathhelper=True)
            run_each(ctx, lab, g, "f", {}, [(kind + " held", "taken"), (kind + " not held", "refused"), (kind + " as before", "k1"), (kind + " count", 1)], site=REF)
            run_each(ctx, lab, g, "g", {}, [(kind + " first value refused", "refused"), (kind + " not emitted", False)], site=REF)


@rule("C17", "documents", 10, limit=200)
def documents(ctx):
    """References that are loaded: after their targets they are taken if these hold them, and emitted as they are."""
    lab = ctx.lab()
    m = M("mod", S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), S("leaf-list", "ll", typ("string"))), ref("rk", "/l/k"), ref("rv", "/l/v"), ref("rl", "/l/ll"))
    D = HELP + '''
from collections import OrderedDict
from pyangbind.lib.serialise import pybindJSONDecoder
def js(rk, rv, rl):
    m = new()
    r = tried(go, m, OrderedDict([("l", OrderedDict([("a", {"k": "a", "v": "p", "ll": ["x"]}), ("b", {"k": "b", "v": "q", "ll": ["y", "z"]})])), ("rk", rk), ("rv", rv), ("rl", rl)]))
    return [r, pbj.dumps(m) if r == "taken" else None, pbj.dumps(m.l)]
def go(m, d):
    pybindJSONDecoder.load_json(d, None, None, obj=m)
def ij(rk, rv, rl):
    m = new()
    r = tried(goi, m, OrderedDict([("mod:l", [{"k": "a", "v": "p", "ll": ["x"]}, {"k": "b", "v": "q", "ll": ["y", "z"]}]), ("mod:rk", rk), ("mod:rv", rv), ("mod:rl", rl)]))
    return [r, pbj.dumps(m) if r == "taken" else None, pbj.dumps(m.l)]
def goi(m, d):
    pybindJSONDecoder.load_ietf_json(d, None, None, obj=m)
'''
    L = {"a": {"k": "a", "v": "p", "ll": ["x"]}, "b": {"k": "b", "v": "q", "ll": ["y", "z"]}}
    with ctx.instance("documents", REF):
        g = lab.bind(D, m, use_xpathhelper=True)
        for rk, rv, rl, ok in (("a", "p", "x", 1), ("b", "q", "z", 1), ("b", "p", "y", 1), ("c", "p", "x", 0), ("a", "r", "x", 0), ("a", "p", "w", 0), ("p", "p", "x", 0), ("a", "p", "", 0)):
            for fn in ("js", "ij"):
                run(ctx, lab, g, "%s %s" % (fn, (rk, rv, rl)), fn, {"rk": C(rk), "rv": C(rv), "rl": C(rl)}, ["taken", {"l": L, "rk": rk, "rv": rv, "rl": rl}, L] if ok else ["refused", None, L], site=REF)


@rule("C17", "pointers", 15, limit=200)
def pointers(ctx):
    """A leafref whose target is one leaf whatever the data stands for that leaf."""
    lab = ctx.lab()
    m = M("mod", leaf("s", "string"), S("leaf", "n", typ("int8", S("range", "1..5"))), S("container", "c", leaf("x", "string"), ref("r", "../x"), ref("up", "../../s")), ref("rs", "/s"), ref("rn", "/n"), ref("rrs", "/rs"), ref("rx", "/c/x"), S("list", "l", S("key", "k"), ref("k", "../c/x"), S("container", "c", leaf("x", "string")), leaf("v", "string"), ref("r", "../v"), ref("o", "../../s")))
    CASES = {
        "taken": ("tried(m._set_rs, 'a'), m.s, str(m.rs)", ["taken", "a", "a"]), "integer": ("tried(m._set_rn, 3), m.n, str(m.rn)", ["taken", 3, "3"]), "refused by the target": ("tried(m._set_rn, 9), m.n, m.n._changed()", ["refused", 0, False]), "refused after": ("tried(m._set_rn, 3), tried(m._set_rn, 9), m.n, str(m.rn)", ["taken", "refused", 3, "3"]), "text refused": ("tried(m._set_rn, 'x'), m.n._changed()", ["refused", False]),
        "in a container": ("tried(m._set_rx, 'b'), m.c.x, str(m.rx)", ["taken", "b", "b"]), "sibling": ("tried(m.c._set_r, 'b'), m.c.x, str(m.c.r), m.s", ["taken", "b", "b", ""]), "upwards": ("tried(m.c._set_up, 'b'), m.s, str(m.c.up), m.c.x", ["taken", "b", "b", ""]), "target changed": ("tried(m._set_rs, 'a'), tried(m._set_s, 'z'), str(m.rs)", ["taken", "taken", "z"]), "several references": ("tried(m._set_rs, 'a'), tried(m.c._set_up, 'z'), str(m.rs), m.s", ["taken", "taken", "z", "z"]),
        "chain": ("tried(m._set_rs, 'a'), tried(m._set_rrs, 'q'), str(m.rrs), str(m.rs), m.s", ["taken", "taken", "q", "q", "q"]), "key": ("tried(m.l.add, 'k1'), m.l['k1'].c.x, [k for k in m.l.keys()]", ["taken", "k1", ["k1"]]), "keys": ("tried(m.l.add, 'k1'), tried(m.l.add, 'k2'), m.l['k1'].c.x, m.l['k2'].c.x, len(m.l)", ["taken", "taken", "k1", "k2", 2]), "within an entry": ("tried(m.l.add, 'k1'), tried(m.l.add, 'k2'), tried(m.l['k1']._set_r, 'w'), m.l['k1'].v, m.l['k2'].v, str(m.l['k1'].r)", ["taken", "taken", "taken", "w", "", "w"]), "from an entry": ("tried(m.l.add, 'k1'), tried(m.l['k1']._set_o, 'w'), m.s, str(m.l['k1'].o)", ["taken", "taken", "w", "w"]),
        "another tree": ("tried(m._set_rs, 'a'), tried(new()._set_rs, 'z'), m.s, str(m.rs)", ["taken", "taken", "a", "a"]), "dumped": ("tried(m._set_rs, 'a'), pbj.dumps(m)", ["taken", {"s": "a", "rs": "a"}]),
    }
    out = [HELP]
    for i, (n, (b, w)) in enumerate(CASES.items()):
        out.append("def f_%d():\n    m = new()\n    return [%s]\n" % (i, b))
    with ctx.instance("pointers", REF):
        g = lab.bind("\n".join(out), m, use_xpathhelper=True)
        for i, (n, (b, w)) in enumerate(CASES.items()):
            run(ctx, lab, g, n, "f_%d" % i, {}, w, site=REF)
        g = lab.bind(HELP + "def f(v):\n    m = new()\n    return [tried(m._set_rs, v), m.s == v, str(m.rs) == v]\ndef g(v):\n    m = new()\n    r = tried(m._set_rn, v)\n    return [r == ('taken' if 1 <= v and v <= 5 else 'refused'), m.n == (v if r == 'taken' else 0)]\n", m, use_xpathhelper=True)
        run(ctx, lab, g, "any text", "f", {"v": "str"}, ["taken", True, True], vals("", "a", "0", "b c"), site=REF)
        run(ctx, lab, g, "any integer", "g", {"v": "int"}, [True, True], vals(0, 1, 3, 5, 6, -1, 300), site=REF)


IN_ENTRIES = HELP + '''
def fill(n, k, j):
    # n entries of l, each with k of m, each with j of o
    m = new()
    for a in range(n):
        e = m.l.add("k%d" % a)
        e.v = "v%d" % a
        for b in range(k):
            f = e.m.add("m%d" % b)
            f.v = "w%d%d" % (a, b)
            for c in range(j):
                f.o.add("o%d" % c).v = "x%d%d%d" % (a, b, c)
    return m
def state(m):
    return [(e.v, [(f.v, [o.v for o in f.o.values()]) for f in e.m.values()]) for e in m.l.values()]
'''


def between(ctx, sizes):
    """A leafref in an entry refers to what is in that entry, or to all that is in the entries of other lists; nothing in other entries is written."""
    lab = ctx.lab()
    o = S("list", "o", S("key", "k"), leaf("k", "string"), leaf("v", "string"), ref("up", "../../v"), ref("upup", "../../../v"), ref("own", "../v"))
    m_ = S("list", "m", S("key", "k"), leaf("k", "string"), leaf("v", "string"), ref("up", "../../v"), ref("down", "../o/v"), ref("own", "../v"), o)
    l = S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), ref("own", "../v"), ref("down", "../m/v"), ref("deep", "../m/o/v"), m_, S("container", "c", ref("up", "../../v"), ref("down", "../../m/v")))
    # where the reference is, values of it: (text, what it does: refused, taken as the value of an instance, written to the leaf)
    out, todo = [IN_ENTRIES], []
    for n, k, j in sizes:
        E, F, O = "m.l['k0']", "m.l['k0'].m['m0']", "m.l['k0'].m['m0'].o['o0']"
        for what, node, held, target in (
            ("own leaf", E + "._set_own", None, E + ".v"), ("own leaf of a container", E + ".c._set_up", None, E + ".v"), ("own leaf two deep", F + "._set_own", None, F + ".v"), ("own leaf three deep", O + "._set_own", None, O + ".v"),
            ("leaf of the entry around", F + "._set_up", None, E + ".v"), ("leaf of the entry around, three deep", O + "._set_up", None, F + ".v"),
            ("leaf of inner entries", E + "._set_down", ["w0%d" % b for b in range(k)], None), ("leaf of inner entries, from a container", E + ".c._set_down", ["w0%d" % b for b in range(k)], None), ("leaf of inner entries, two deep", F + "._set_down", ["x00%d" % c for c in range(j)], None), ("leaf two lists further down", E + "._set_deep", ["x0%d%d" % (b, c) for b in range(k) for c in range(j)], None)):
            for v in ("w00", "w01", "x000", "x001", "w10", "new"):
                if v[0] == "w" and what.endswith(("deep", "down")) and held or v[0] == "x" and held and not what.endswith(("deep", "down")):
                    continue
                if held is None and v != "new":
                    continue
                w = ["taken", v] if held is None else ["taken" if v in held else "refused", True]
                chk = target or "state(m) == b"
                out.append("def f_%d():\n    m = fill(%d, %d, %d)\n    b = state(m)\n    return [tried(%s, '%s'), %s]\n" % (len(todo), n, k, j, node, v, chk))
                todo.append(("%s with %d, %d and %d entries: %s" % (what, n, k, j, v), w))
    with ctx.instance("between entries", REF):
        g = lab.bind("\n".join(out), M("mod", l), use_xpathhelper=True)
        for i, (n, w) in enumerate(todo):
            run(ctx, lab, g, n, "f_%d" % i, {}, w, site=REF)


def between_rule(name, size):
    @rule("C17", "between-entries-" + name, 20, limit=250)
    def go(ctx):
        between(ctx, [size])


for _n, _s in (("one-each", (1, 1, 1)), ("two-outer", (2, 1, 1)), ("two-inner", (1, 2, 1)), ("two-innermost", (1, 1, 2))):
    between_rule(_n, _s)
