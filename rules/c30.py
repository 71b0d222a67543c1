"""C30: dump options select exactly the named subtrees and entries."""

import json

from .common import *
from .c10 import HEAD as PRELUDE, conc

explain("C30", "Trees of every kind of member are dumped abstractly, whole and from every object of them, in both modes, with skip lists naming each node by its path (with every other node, absent names, paths beyond leaves, through lists and elsewhere) and with selections on leaves of every type, nested members and several members at once; the document is compared with the document dumped without options, from which the rule has removed what the options name.")

def together(ctx, lab, head, mods, cases, start, **opts):
    """cases: (group, instance, code that makes d of m, expression of the result, wanted); one driver per group of up to twelve."""
    groups = {}
    for c in cases:
        groups.setdefault(c[0], []).append(c)
    out, todo = [head], []
    for cs in groups.values():
        for i in range(0, len(cs), 12):
            part = cs[i:i + 12]
            j = len(todo)
            body = ["def f_%d():" % j, "    m = %s()" % start, "    r = []"]
            for _, n, code, res, w in part:
                body += ["    try:"] + ["        " + l for l in code.split("\n")] + ["        r.append(%s)" % res, "    except Exception as x:", "        r.append('raises ' + type(x).__name__)"]
            out.append("\n".join(body + ["    return r"]) + "\n")
            todo.append((j, [(n, w) for _, n, code, res, w in part]))
    g = lab.bind("\n".join(out), *mods, **opts)
    for j, wants in todo:
        run_each(ctx, lab, g, "f_%d" % j, {}, wants, DUMPS)


DUMPS = PJ + "dumps"
HELP = PRELUDE + '''
def full():
    m = mod()
    m.a = 'A'
    m.n = 0
    m.ll.append('x')
    m.ll.append('y')
    m.c.a = 'B'
    m.c.d.a = 'C'
    m.c.d.e.v = 1
    m.c.l.add('one')
    m.c.l['one'].v = 'V'
    m.c.l['one'].c.a = 'W'
    m.c.l.add('two')
    m.c.l['two'].v = 'X'
    m.c_2.a = 'D'
    m.x.add('1 2')
    m.x['1 2'].y.add('p')
    m.x['1 2'].y['p'].w = 'Q'
    return m
'''
SKELETON = [leaf("a", "string"), leaf("n", "int8"), S("leaf-list", "ll", typ("string")),
            S("container", "c", leaf("a", "string"), S("container", "d", leaf("a", "string"), S("container", "e", leaf("v", "int8")), leaf("un", "string")), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), S("container", "c", leaf("a", "string")))),
            S("container", "c-2", leaf("a", "string"), S("container", "none", leaf("a", "string"))),
            S("list", "x", S("key", "i j"), leaf("i", "int8"), leaf("j", "int8"), S("list", "y", S("key", "k"), leaf("k", "string"), leaf("w", "string")))]
JSON = {"a": "A", "n": 0, "ll": ["x", "y"], "c": {"a": "B", "d": {"a": "C", "e": {"v": 1}}, "l": {"one": {"k": "one", "v": "V", "c": {"a": "W"}}, "two": {"k": "two", "v": "X"}}}, "c-2": {"a": "D"}, "x": {"1 2": {"i": 1, "j": 2, "y": {"p": {"k": "p", "w": "Q"}}}}}
IETF = {"a": "A", "n": 0, "ll": ["x", "y"], "c": {"a": "B", "d": {"a": "C", "e": {"v": 1}}, "l": [{"k": "one", "v": "V", "c": {"a": "W"}}, {"k": "two", "v": "X"}]}, "c-2": {"a": "D"}, "x": [{"i": 1, "j": 2, "y": [{"k": "p", "w": "Q"}]}]}
DOC = {"default": JSON, "ietf": IETF}


def without(tree, path):
    if isinstance(tree, list):
        return [without(t, path) for t in tree]
    if not isinstance(tree, dict) or not path or path[0] not in tree:
        return tree
    if len(path) == 1:
        return {k: v for k, v in tree.items() if k != path[0]}
    return {k: without(v, path[1:]) if k == path[0] else v for k, v in tree.items()}


def plain(r):
    """Names without the module, empty containers left out."""
    if isinstance(r, dict):
        out = {(k.split(":")[-1] if isinstance(k, str) else k): plain(v) for k, v in r.items()}
        return {k: v for k, v in out.items() if v not in ({}, []) or isinstance(v, str)}
    if isinstance(r, list):
        return [plain(x) for x in r]
    return r


def like(w):
    w = json.dumps(plain(w), sort_keys=True)

    def want(r, rep):
        if isinstance(r, Raised):
            return False
        c = conc(r)
        if c is None:
            return None
        return json.dumps(plain(c[0]), sort_keys=True) == w

    return want


PATHS = ["/a", "/n", "/ll", "/c", "/c/a", "/c/d", "/c/d/a", "/c/d/e", "/c/d/e/v", "/c/l", "/c-2", "/c-2/a", "/x", "/c/d/un", "/c-2/none", "/c-2/none/a",
         "/nosuch", "/c/nosuch", "/c/nosuch/a", "/c/d/nosuch", "/a/b", "/n/b", "/ll/b", "/c/a/b", "/c/a/b/c", "/c/d/e/v/x", "/d", "/e", "/l", "/d/a", "/c/c", "/c-2/d", "/c-2/d/a", "/mod", "/v", "/c/v", "/a/c/d"]
LISTED = ["/c/l/v", "/c/l/c", "/c/l/c/a", "/x/y", "/x/y/w", "/x/i", "/c/l/nosuch", "/c/l/v/b", "/x/w"]


@rule("C30", "skip-one", 60, limit=200)
def one(ctx):
    """The whole tree without the node at one path, in both modes."""
    lab = ctx.lab()
    cases = []
    for mode in ("default", "ietf"):
        for p in PATHS + (LISTED if mode == "ietf" else ["/c/l/one", "/c/l/one/v", "/c/l/two/c", "/c/l/one/c/a", "/c/l/three", "/c/l/three/v", "/x/1 2", "/x/1 2/y/p/w"]):
            cases.append((mode, "%s, %s" % (p, mode), "d = pbj.dumps(m, skip_subtrees=[%r], mode=%r)" % (p, mode), "d", like(without(DOC[mode], p.split("/")[1:]))))
    together(ctx, lab, HELP, [M("mod", *SKELETON)], cases, "full")


@rule("C30", "skip-several", 36, limit=200)
def several(ctx):
    """Several paths, in either order, overlapping, twice, present and absent; the list given is left alone."""
    lab = ctx.lab()
    sets = [["/a", "/c"], ["/c", "/a"], ["/c/d", "/c/d/a"], ["/c/d/a", "/c/d"], ["/c", "/c/d/e"], ["/a", "/a"], ["/nosuch", "/a"], ["/a", "/nosuch"], ["/nosuch/x", "/c/d/e"], ["/a/b", "/c/d"], ["/ll", "/n", "/x"], ["/c/l", "/c/a"], ["/c/a", "/c-2/a"], ["/a", "/n", "/ll", "/c", "/c-2", "/x"], [], ["/c/d/e/v", "/c/d/a", "/c/a"], ["/c/l/nosuch", "/c/l"], ["/c/a/b", "/c-2"]]
    cases = []
    for mode in ("default", "ietf"):
        for s in sets:
            d = DOC[mode]
            for p in s:
                d = without(d, p.split("/")[1:])
            cases.append((mode, "%s, %s" % (" and ".join(s) or "none", mode), "s = %r\nd = pbj.dumps(m, skip_subtrees=s, mode=%r)" % (s, mode), "d if s == %r else 'list changed'" % s, like(d)))
    together(ctx, lab, HELP, [M("mod", *SKELETON)], cases, "full")


OBJECTS = {
    "m.c": (["c"], lambda d: d["c"]),
    "m.c.d": (["c", "d"], lambda d: d["c"]["d"]),
    "m.c.d.e": (["c", "d", "e"], lambda d: d["c"]["d"]["e"]),
    "m.c_2": (["c-2"], lambda d: d["c-2"]),
    "m.c.l['one']": (["c", "l"], lambda d: d["c"]["l"]["one"] if isinstance(d["c"]["l"], dict) else d["c"]["l"][0]),
    "m.c.l['one'].c": (["c", "l", "c"], lambda d: {"a": "W"}),
    "m.x['1 2']": (["x"], lambda d: d["x"]["1 2"] if isinstance(d["x"], dict) else d["x"][0]),
    "m.x['1 2'].y['p']": (["x", "y"], lambda d: {"k": "p", "w": "Q"}),
    "m.c.l": (["c", "l"], lambda d: d["c"]["l"]),
}


@rule("C30", "skip-below-an-object", 80, limit=200)
def objects(ctx):
    """Objects below the root are dumped without what lies at the absolute paths; paths that lie elsewhere have no effect."""
    lab = ctx.lab()
    cases = []
    for mode in ("default", "ietf"):
        for o, (at, sub) in OBJECTS.items():
            for p in PATHS + LISTED:
                pp = p.split("/")[1:]
                if at[:len(pp)] == pp:
                    continue  # the object itself, or what it is in
                inside = pp[:len(at)] == at
                rest = pp[len(at):]
                if not inside and not (rest and hash_(p + o + mode) % 3 == 0) and len(pp) > 1 and pp[0] != at[0]:
                    continue
                if mode == "default" and inside and any(x in ("l", "x", "y") for x in ([at[-1]] if o == "m.c.l" else []) + rest[:-1]):
                    continue  # entries are named by their keys in this mode
                d = sub(DOC[mode])
                cases.append((mode + o, "%s without %s, %s" % (o, p, mode), "d = pbj.dumps(%s, skip_subtrees=[%r], mode=%r)" % (o, p, mode), "d", like(without(d, rest) if inside else d)))
    together(ctx, lab, HELP, [M("mod", *SKELETON)], cases, "full")


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


@rule("C30", "skip-of-other-modules", 8, limit=150)
def others(ctx):
    """Members that other modules added are named without their module, as in paths of objects."""
    lab = ctx.lab()
    other = M("other", prefix="op")
    md = M("mod", leaf("a", "string"), S("container", "c", leaf("b", "string"), S("leaf", "g", typ("string"), aug="other"), S("container", "h", leaf("i", "string"), aug="other")), prefix="mp")
    base = {"a": "A", "c": {"b": "B", "g": "G", "h": {"i": "I"}}}
    out = [HELP.split("def full")[0], "def full():\n    m = mod()\n    m.a = 'A'\n    m.c.b = 'B'\n    m.c.g = 'G'\n    m.c.h.i = 'I'\n    return m\n"]
    cases = []
    for mode in ("default", "ietf"):
        for p in ("/a", "/c", "/c/b", "/c/g", "/c/h", "/c/h/i", "/g", "/h", "/c/i"):
            j = len(cases)
            out.append("def f_%d():\n    return pbj.dumps(full(), skip_subtrees=[%r], mode=%r)\n" % (j, p, mode))
            cases.append(("%s, %s" % (p, mode), like(without(base, p.split("/")[1:]))))
    g = lab.bind("\n".join(out), other, md, only=["mod"])
    for j, (n, w) in enumerate(cases):
        run(ctx, lab, g, n, "f_%d" % j, {}, w, site=DUMPS)


ROWS = [("e1", "x", 1, "True", "p", "ia"), ("e2", "x", 2, "False", "q", "ib"), ("e3", "y", 1, "True", "q", "ia"), ("e4", "x", 1, "True", "p", "ia"), ("e5", "", 0, "False", "q", "ia"), ("1", "1", 11, "True", "p", "ib")]


@rule("C30", "select", 60, limit=250)
def select(ctx):
    """Entries are kept exactly if all named members, of any type and depth, have the values asked for."""
    lab = ctx.lab()
    kids = [S("list", "l", S("key", "k"), leaf("k", "string"), leaf("s", "string"), leaf("n", "int8"), leaf("b", "boolean"), leaf("a-n", typ("enumeration", S("enum", "p"), S("enum", "q"))), S("container", "c", leaf("s", "string"), S("container", "d", leaf("n", "int32"), leaf("u", typ("union", typ("int8"), typ("string")))))),
            S("list", "o", S("key", "k"), S("ordered-by", "user"), leaf("k", "string"), leaf("s", "string")),
            S("list", "un", leaf("s", "string"), leaf("n", "int8"), i_config=False)]
    build = "def full():\n    m = mod()\n"
    for k, s, n, b, e, _ in ROWS:
        build += "    x = m.l.add(%r)\n    x.s = %r\n    x.n = %r\n    x.b = %s\n    x.a_n = %r\n    x.c.s = %r\n    x.c.d.n = %r\n    x.c.d.u = %r\n    y = m.o.add(%r)\n    y.s = %r\n" % (k, s, n, b, e, s + s, n * 1000, n if n != 11 else "eleven", k, s)
    for x, n in (("a", 1), ("b", 1), ("a", 1), ("b", 2), ("b", 1), ("a", 1)):
        build += "    k = m.un.add()\n    m.un[k]._set_s(%r)\n    m.un[k]._set_n(%d)\n" % (x, n)
    build += "    return m\n"
    row = [{"k": k, "s": s, "n": str(n), "b": b, "a-n": e, "c.s": s + s, "c.d.n": str(n * 1000), "c.d.u": str(n) if n != 11 else "eleven"} for k, s, n, b, e, _ in ROWS]
    sels = [{"k": "e1"}, {"k": "nosuch"}, {"k": "1"}, {"k": 1}, {"s": "x"}, {"s": "y"}, {"s": ""}, {"s": "nosuch"}, {"s": 1}, {"n": 1}, {"n": "1"}, {"n": 0}, {"n": 11}, {"n": 99}, {"b": True}, {"b": False}, {"a-n": "p"}, {"a-n": "q"}, {"c.s": "xx"}, {"c.s": "yy"}, {"c.d.n": 1000}, {"c.d.n": "0"}, {"c.d.u": 1}, {"c.d.u": "eleven"},
            {"s": "x", "n": 1}, {"n": 1, "s": "x"}, {"s": "x", "n": 2}, {"s": "y", "n": 2}, {"k": "e4", "s": "x"}, {"s": "x", "n": 1, "k": "e1"}, {"s": "nosuch", "n": 1}, {"n": 1, "s": "nosuch"}, {"c.s": "xx", "c.d.n": 1000}, {"c.d.n": 1000, "c.d.u": 1, "s": "y"}, {"a-n": "q", "b": False, "n": 0}, {"b": True, "c.d.n": 1000, "a-n": "p"}]
    cases = []
    for mode in ("default", "ietf"):
        for s in sels:
            get = "list(d.keys())" if mode == "default" else "[x.get('mod:k', x.get('k')) for x in d]"
            cases.append((mode, "%s, %s" % (s, mode), "s = %r\nd = pbj.dumps(m.l, select=s, mode=%r)" % (s, mode), "%s if s == %r else 'selection changed'" % (get, s), [r["k"] for r in row if all(r[k] == str(v) for k, v in s.items())]))
        for s, w in (({"s": "a"}, ["a"] * 3), ({"s": "b"}, ["b"] * 3), ({"n": 1}, ["a", "b", "a", "b", "a"]), ({"n": 2}, ["b"]), ({"s": "a", "n": 1}, ["a"] * 3), ({"s": "b", "n": 1}, ["b"] * 2), ({"s": "c"}, [])):
            get = "[e['s'] for e in d.values()]" if mode == "default" else "[x.get('mod:s', x.get('s')) for x in d]"
            cases.append((mode, "%s, without keys, %s" % (s, mode), "d = pbj.dumps(m.un, select=%r, mode=%r)" % (s, mode), get, w))
        for s in ({"s": "x"}, {"k": "e5"}, {"s": "x", "k": "e4"}):
            get = "list(d.keys())" if mode == "default" else "[x.get('mod:k', x.get('k')) for x in d]"
            cases.append((mode, "%s, ordered by the user, %s" % (s, mode), "d = pbj.dumps(m.o, select=%r, mode=%r)" % (s, mode), get, [r["k"] for r in row if all(r[k] == str(v) for k, v in s.items())]))
    together(ctx, lab, PRELUDE + build, [M("mod", *kids)], cases, "full")


@rule("C30", "select-keeps-entries-whole", 10, limit=150)
def whole(ctx):
    """What is kept is the entry as it is dumped without options, and selecting works together with skipping; the value asked for may be anything."""
    lab = ctx.lab()
    kids = [S("list", "l", S("key", "k"), leaf("k", "string"), leaf("s", "string"), S("leaf-list", "ll", typ("int8")), S("container", "c", leaf("s", "string"), S("list", "i", S("key", "k"), leaf("k", "string"))), S("leaf", "au", typ("string"), aug="other"), S("container", "ac", leaf("s", "string"), aug="other"))]
    other = M("other", prefix="op")
    build = "def full():\n    m = mod()\n    for k, s in (('e1', 'x'), ('e2', 'y'), ('e3', 'x')):\n        x = m.l.add(k)\n        x.s = s\n        x.ll.append(4)\n        x.c.s = k\n        x.c.i.add('z')\n        x.au = s + k\n        x.ac.s = k + k\n    return m\n"
    out, cases = [PRELUDE, build], []

    def e(k, s, ietf, no=()):
        z = {"k": "z"}
        d = {"k": k, "s": s, "ll": [4], "c": {"s": k, "i": [z] if ietf else {"z": z}}, "au": s + k, "ac": {"s": k + k}}
        for p in no:
            d = without(d, p)
        return d

    for mode in ("default", "ietf"):
        i = mode == "ietf"
        pack = lambda es: es if i else {x["k"]: x for x in es}
        for sel, skip, no, kept in (({"s": "x"}, [], (), (("e1", "x"), ("e3", "x"))), ({"k": "e2"}, [], (), (("e2", "y"),)), ({"c.s": "e3"}, [], (), (("e3", "x"),)), ({"au": "xe1"}, [], (), (("e1", "x"),)), ({"ac.s": "e2e2"}, [], (), (("e2", "y"),)), ({"s": "y", "ac.s": "e2e2"}, [], (), (("e2", "y"),)), ({"s": "x"}, ["/c", "/s"], (), (("e1", "x"), ("e3", "x"))), ({}, [], (), (("e1", "x"), ("e2", "y"), ("e3", "x"))),
                                    ({"s": "x"}, ["/l/c"], (["c"],), (("e1", "x"), ("e3", "x"))), ({"s": "y"}, ["/l/c/i", "/l/ll"], (["c", "i"], ["ll"]), (("e2", "y"),))):
            if no and not i:
                continue
            j = len(cases)
            out.append("def f_%d():\n    return pbj.dumps(full().l, select=%r, skip_subtrees=%r, mode=%r)\n" % (j, sel, skip, mode))
            cases.append(("%s without %s, %s" % (sel, skip, mode), like(pack([e(k, s, i, no) for k, s in kept]))))
    out.append("def sym(v):\n    return list(pbj.dumps(full().l, select={'s': v}).keys())\n")
    out.append("def symi(v):\n    return len(pbj.dumps(full().l, select={'s': v}, mode='ietf'))\n")
    g = lab.bind("\n".join(out), other, M("mod", *kids, prefix="mp"), only=["mod"])
    for j, (n, w) in enumerate(cases):
        run(ctx, lab, g, n, "f_%d" % j, {}, w, site=DUMPS)
    keep = lambda v: ["e1", "e3"] if v == "x" else ["e2"] if v == "y" else []
    run(ctx, lab, g, "any value", "sym", {"v": "str"}, accepts(lambda v: True, keep), vals("x", "y", "", "z", "xe1"), site=DUMPS)
    run(ctx, lab, g, "any value, ietf", "symi", {"v": "str"}, accepts(lambda v: True, lambda v: len(keep(v))), vals("x", "y", "", "z", "xe1"), site=DUMPS)


@rule("C30", "arguments", 8, limit=100)
def arguments(ctx):
    """Options of other kinds are refused; without options the document is whole; dump() does as dumps()."""
    lab = ctx.lab()
    out = [HELP]
    bad = ["'/a'", "{'/a': 1}", "('/a',)", "None", "5"]
    for j, b in enumerate(bad):
        out.append("def b_%d():\n    try:\n        pbj.dumps(full(), skip_subtrees=%s)\n    except AttributeError:\n        return 'refused'\n" % (j, b))
    for mode in ("default", "ietf"):
        out.append("def w_%s():\n    return pbj.dumps(full(), mode='%s')\n" % (mode, mode))
        out.append("def again_%s():\n    m = full()\n    pbj.dumps(m, skip_subtrees=['/a', '/c/l'], mode='%s')\n    return pbj.dumps(m, mode='%s')\n" % (mode, mode, mode))
        out.append("def sel_%s():\n    m = full()\n    pbj.dumps(m.c.l, select={'v': 'X'}, mode='%s')\n    return pbj.dumps(m, mode='%s')\n" % (mode, mode, mode))
    g = lab.bind("\n".join(out), M("mod", *SKELETON))
    for j, b in enumerate(bad):
        run(ctx, lab, g, "skip_subtrees=" + b, "b_%d" % j, {}, "refused", site=DUMPS)
    for mode in ("default", "ietf"):
        for f, n in (("w", "no options"), ("again", "after skipping"), ("sel", "after selecting")):
            run(ctx, lab, g, "%s, %s" % (n, mode), "%s_%s" % (f, mode), {}, like(DOC[mode]), site=DUMPS)


@rule("C30", "files", 20, limit=150)
def files(ctx):
    """What is written to a file is what the same options give as text, whole, whatever was in it before; a file that cannot be opened is refused."""
    lab = ctx.lab()
    OPTS = ["", "mode='ietf'", "filter=False", "mode='ietf', filter=False", "skip_subtrees=['/c', '/x']", "mode='ietf', skip_subtrees=['/c/d', '/ll']", "filter=False, skip_subtrees=['/c/d/e', '/x', '/a']", "mode='ietf', filter=False, skip_subtrees=['/c/l']", "indent=None", "indent=2, mode='ietf'"]
    cases = []
    for o in OPTS:
        o_ = ", " + o if o else ""
        for n, obj in (("whole", "m"), ("a container", "m.c")):
            cases.append(("o", "%s: %s" % (n, o or "no options"), "pbj.dump(%s, 'f%s)" % (obj, "'" + o_), "d = open('f').read()\n    want = pbj.dumps(%s%s)" % (obj, o_)))
    out, todo = [HELP], []
    for j, (_, n, code, res) in enumerate(cases):
        out.append("def f_%d():\n    m = full()\n    open('f', 'w').write('before')\n    %s\n    %s\n    return d == want, len(d) > 0\n" % (j, code, res))
        todo.append((j, n, (True, True)))
    out.append("def twice():\n    m = full()\n    pbj.dump(m, 'f')\n    m.a = 'other'\n    m.c._unset_d() if hasattr(m.c, '_unset_d') else None\n    pbj.dump(m, 'f', mode='ietf')\n    return open('f').read() == pbj.dumps(m, mode='ietf')\n")
    out.append("def two():\n    m = full()\n    pbj.dump(m, 'f')\n    pbj.dump(m.c, 'g', mode='ietf')\n    return [open('f').read() == pbj.dumps(m), open('g').read() == pbj.dumps(m.c, mode='ietf')]\n")
    out.append("def refused():\n    m = full()\n    r = []\n    for fn in (lambda: pbj.dump(m, 'refused/f'), lambda: pbj.load('absent', None, 'mod'), lambda: pbj.load_ietf('absent', None, 'mod')):\n        try:\n            fn()\n            r.append('accepted')\n        except pbj.pybindJSONIOError:\n            r.append('refused')\n        except Exception as x:\n            r.append(type(x).__name__)\n    return r\n")
    g = lab.bind("\n".join(out), M("mod", *SKELETON))
    for j, n, w in todo:
        run(ctx, lab, g, n, "f_%d" % j, {}, w, site=PJ + "dump")
    run(ctx, lab, g, "the same file twice", "twice", {}, True, site=PJ + "dump")
    run(ctx, lab, g, "two files", "two", {}, [True, True], site=PJ + "dump")
    run(ctx, lab, g, "files that cannot be opened", "refused", {}, ["refused"] * 3, site=PJ + "dump")
