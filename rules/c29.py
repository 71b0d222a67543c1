"""C29: extension methods attach to exactly their path and learn who called them."""

from .common import *
from .c10 import HEAD as PRELUDE

explain("C29", "A schema with every kind of node at every depth (leaves of each type, leaf-lists, containers, lists, entries, keys, lists in lists, cases, keyless lists, members of other modules) is built abstractly with a method table for each path in turn, with and without a path helper and after histories that make nodes anew; on every node of the tree the rule asks which methods it has and what they received. Names that a node has already, data members and private names of the table are tried on every kind of node.")

SITE = YT + "YANGDynClass"
SCH = [leaf("a", "string"), leaf("n", "int8", S("default", "4")), S("leaf-list", "ll", typ("string")), leaf("bt", typ("bits", S("bit", "x"))), leaf("un", typ("union", typ("int8"), typ("string"))), leaf("en", typ("enumeration", S("enum", "p"))), leaf("bo", "boolean"), leaf("de", typ("decimal64", S("fraction-digits", "2"))),
       S("container", "c", leaf("a", "string"), S("container", "d", leaf("a", "string"), S("leaf-list", "ll", typ("int8")))),
       S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), S("container", "c", leaf("a", "string")), S("list", "m", S("key", "x y"), leaf("x", "string"), leaf("y", "int8"), leaf("z", "string"))),
       S("choice", "ch", S("case", "one", leaf("x1", "string"), S("container", "x2", leaf("y", "string"))), S("case", "two", leaf("x3", "string"))),
       S("list", "kl", S("config", "false"), leaf("v", "string"))]
NODES = {"m.a": "/a", "m.n": "/n", "m.ll": "/ll", "m.bt": "/bt", "m.un": "/un", "m.en": "/en", "m.bo": "/bo", "m.de": "/de", "m.c": "/c", "m.c.a": "/c/a", "m.c.d": "/c/d", "m.c.d.a": "/c/d/a", "m.c.d.ll": "/c/d/ll", "m.l": "/l", "m.l['a[b']": "/l", "m.l['a[b'].k": "/l/k", "m.l['a[b'].v": "/l/v", "m.l['a[b'].c": "/l/c", "m.l['a[b'].c.a": "/l/c/a", "m.l['/c/a'].v": "/l/v", "m.l['/c/a'].c": "/l/c", "m.l['/c/a']": "/l",
         "m.l['a[b'].m": "/l/m", "m.l['a[b'].m['p 7']": "/l/m", "m.l['a[b'].m['p 7'].x": "/l/m/x", "m.l['a[b'].m['p 7'].y": "/l/m/y", "m.l['a[b'].m['p 7'].z": "/l/m/z", "m.x1": "/x1", "m.x2": "/x2", "m.x2.y": "/x2/y", "m.kl": "/kl", "e": "/kl", "e.v": "/kl/v"}
PATHS = sorted(set(NODES.values())) + ["/l/m/x/q", "/nosuch", "/", "a", "/c/d/", "//a", "/mod/a", "/l/a", "/ch/one/x1", "/d", "/v", "/l[k='a[b']", "/l/a[b/v", "/c/c"]
HELP = PRELUDE + '''
import pyangbind.lib.xpathhelper as xh
class X(object):
    data = 5
    def _private(self):
        return 1
    def commit(self, *args, **kw):
        return ("commit", args, kw)
    def method(self, *args, **kw):
        return ("method", args, kw)
    def second(self, *args, **kw):
        return ("second", args, kw)
def fill(m):
    for k in ('a[b', '/c/a'):
        if k not in m.l:
            m.l.add(k)
    if 'p 7' not in m.l['a[b'].m:
        m.l['a[b'].m.add('p 7')
    if len(m.kl) == 0:
        m.kl.add()
    return list(m.kl.values())[0]
def has(x):
    return [n for n in ('_commit', '_method', '_second', '_data', '__private', '_commit_', 'commit') if hasattr(x, n)]
'''
GIVEN = ["_commit", "_method", "_second"]
ALL = "[%s]" % ", ".join("has(%s)" % n for n in NODES)


def attached(name, opts, build, history=""):
    @rule("C29", name, 20, limit=200)
    def _(ctx):
        lab = ctx.lab()
        out = [HELP]
        for j, p in enumerate(PATHS):
            out.append("def f_%d():\n    m = mod(extmethods={%r: X()}%s)\n    e = fill(m)\n    %s\n    e = fill(m)\n    return %s\n" % (j, p, build, history or "pass", ALL))
        out.append("def none():\n    m = mod(extmethods={}%s)\n    e = fill(m)\n    return %s\n" % (build, ALL))
        out.append("def without():\n    m = mod(%s)\n    e = fill(m)\n    return %s\n" % (build.lstrip(", "), ALL))
        two = [("/c", "/c/d/a"), ("/l", "/l/m/z"), ("/a", "/l/c/a")]
        for j, ps in enumerate(two):
            out.append("def two_%d():\n    m = mod(extmethods={%s}%s)\n    e = fill(m)\n    %s\n    e = fill(m)\n    return %s\n" % (j, ", ".join("%r: X()" % p for p in ps), build, history or "pass", ALL))
        g = lab.bind("\n".join(out), M("mod", *SCH), use_extmethods=True, **opts)
        want = lambda ps: [GIVEN if q in ps else [] for q in NODES.values()]
        for j, p in enumerate(PATHS):
            run(ctx, lab, g, p, "f_%d" % j, {}, want([p]), site=SITE)
        for j, ps in enumerate(two):
            run(ctx, lab, g, " and ".join(ps), "two_%d" % j, {}, want(ps), site=SITE)
        run(ctx, lab, g, "empty table", "none", {}, want([]), site=SITE)
        run(ctx, lab, g, "no table", "without", {}, want([]), site=SITE)


attached("attached", {}, "")
attached("attached-with-a-path-helper", {"use_xpathhelper": True}, ", path_helper=xh.YANGPathHelper()")
SETS = ["m.a = 'v'", "m.n = 5", "m.ll = ['x']", "m.bt = 'x'", "m.un = 'x'", "m.un = 3", "m.en = 'p'", "m.bo = True", "m.de = '1.5'", "m.c.a = 'v'", "m.c.d.ll.append(3)", "m.l['a[b'].v = 'x'", "m.l['a[b'].m['p 7'].z = 'z'", "m.x2.y = 'v'", "e._set_v('q')"]
attached("after-assignments", {}, "", "\n    ".join(SETS))
attached("after-resets", {}, "", "\n    ".join(SETS + ["m._unset_%s()" % x for x in ("a", "n", "ll", "bt", "un", "c", "l", "x2")] + ["m.x3 = 'q'", "m.x1 = 'r'"]))
attached("after-a-document", {}, "", "\n    ".join(["from pyangbind.lib.serialise import pybindJSONDecoder", "pybindJSONDecoder.load_json({'a': 'v', 'll': ['z'], 'c': {'a': 'w', 'd': {'ll': [3]}}, 'l': {'a[b': {'k': 'a[b', 'v': 'x', 'm': {'p 7': {'x': 'p', 'y': 7, 'z': 'z'}}}}, 'x2': {'y': 'y'}}, None, None, obj=m)"]))
NEW = ["x = m.l._new_item()", "x.k = 'a[b'", "x.v = 'w'", "y = x.m._new_item()", "y.x = 'p'", "y.y = 7", "y.z = 'z'"]
attached("after-appended-entries", {}, "", "\n    ".join(NEW + ["m.l.delete('a[b')", "m.l.append(x)", "m.l['a[b'].m.append(y)"]))
attached("after-stored-entries", {}, "", "\n    ".join(NEW + ["m.l['a[b'] = x", "m.l['a[b'].m['p 7'] = y"]))
attached("after-taking-another", {}, "", "\n    ".join(["o = mod()", "o.c.a = 'v'", "o.c.d.a = 'w'", "m.c = o.c", "m.c.d = o.c.d"]))


@rule("C29", "what-they-receive", 20, limit=200)
def receive(ctx):
    """The caller's path, the path helper and the arguments; what they return is returned."""
    lab = ctx.lab()
    out, cases = [HELP], []
    where = {"m.a": ["a"], "m.ll": ["ll"], "m.c": ["c"], "m.c.d.a": ["c", "d", "a"], "m.l": ["l"], "m.l['a[b']": ["l[k='a[b']"], "m.l['/c/a'].v": ["l[k='/c/a']", "v"], "m.l['a[b'].m['p 7'].z": ["l[k='a[b']", "m[x='p' y='7']", "z"], "m.l['a[b'].m['p 7']": ["l[k='a[b']", "m[x='p' y='7']"], "m.x2.y": ["x2", "y"]}
    calls = [("()", (), {}), ("('A')", ("A",), {}), ("('A', None, 3, b=2)", ("A", None, 3), {"b": 2}), ("(q='x', commit=1)", (), {"q": "x", "commit": 1})]
    for n, path in where.items():
        for h in (False, True):
            j = len(cases)
            b = ", path_helper=h" if h else ""
            body = ["h = xh.YANGPathHelper()" if h else "h = False", "m = mod(extmethods={%r: X()}%s)" % (NODES[n], b), "e = fill(m)", "r = []"]
            for c, a, k in calls:
                for f in ("commit", "second"):
                    body.append("r.append(%s._%s%s)" % (n, f, c))
            body.append("return [(w, a, sorted([x for x in k.keys() if x not in ('caller', 'path_helper')]), [k[x] for x in sorted([y for y in k.keys() if y not in ('caller', 'path_helper')])], k['caller'], k['path_helper'] is h) for w, a, k in r]")
            out.append("def f_%d():\n    %s\n" % (j, "\n    ".join(body)))
            w = [(f, a, sorted(k), [k[x] for x in sorted(k)], path, True) for c, a, k in calls for f in ("commit", "second")]
            cases.append(("%s, %s" % (n, "path helper" if h else "none"), w))
    out.append("def sym(v):\n    m = mod(extmethods={'/c/a': X()})\n    w, a, k = m.c.a._commit(v, x=v)\n    return w, a[0] == v, k['x'] == v, len(a), sorted(list(k.keys()))\n")
    out.append("def raises():\n    class Y(object):\n        def fail(self, **kw):\n            raise KeyError('own')\n    m = mod(extmethods={'/c/a': Y()})\n    try:\n        m.c.a._fail()\n    except KeyError:\n        return 'its own'\n")
    out.append("def state():\n    class Y(object):\n        def __init__(self):\n            self.seen = []\n        def note(self, **kw):\n            self.seen.append(kw['caller'])\n            return len(self.seen)\n    y = Y()\n    m = mod(extmethods={'/c/a': y, '/l/v': y, '/l': y})\n    fill(m)\n    r = [m.c.a._note(), m.l['/c/a'].v._note(), m.c.a._note(), m.l._note(), m.l['/c/a']._note()]\n    return r, y.seen\n")
    out.append("def given():\n    m = mod(extmethods={'/c/a': X()})\n    a = ['x']\n    k = {'q': 1}\n    m.c.a._commit(*a, **k)\n    return a, k\n")
    out.append("def told():\n    h = xh.YANGPathHelper()\n    m = mod(extmethods={'/c/a': X()}, path_helper=h)\n    w, a, k = m.c.a._commit(caller=['not', 'this'], path_helper='nor this')\n    return k['caller'], k['path_helper'] is h, sorted(list(k.keys()))\n")
    g = lab.bind("\n".join(out), M("mod", *SCH), use_extmethods=True, use_xpathhelper=True)
    run(ctx, lab, g, "another caller named by the caller", "told", {}, (["c", "a"], True, ["caller", "path_helper"]), site=SITE)
    for j, (n, w) in enumerate(cases):
        run(ctx, lab, g, n, "f_%d" % j, {}, w, site=SITE)
    run(ctx, lab, g, "any argument", "sym", {"v": "str"}, ("commit", True, True, 1, ["caller", "path_helper", "x"]), site=SITE)
    run(ctx, lab, g, "its exception", "raises", {}, "its own", site=SITE)
    run(ctx, lab, g, "the object given", "state", {}, ([1, 2, 3, 4, 5], [["c", "a"], ["l[k='/c/a']", "v"], ["c", "a"], ["l"], ["l[k='/c/a']"]]), site=SITE)
    run(ctx, lab, g, "the arguments themselves", "given", {}, (["x"], {"q": 1}), site=SITE)


OWN = ["set", "changed", "path", "yang_path", "register_path", "parent", "default", "mchanged", "yang_name", "path_helper", "extmethods", "is_leaf", "is_container", "present", "set_present", "metadata", "add_metadata", "choice", "namespace", "defining_module", "yang_type", "is_config", "register", "extensions", "base_type"]


@rule("C29", "nothing-replaced", 30, limit=250)
def own(ctx):
    """Methods named as something that the node has leave it as it is, and do not keep the others from being attached."""
    lab = ctx.lab()
    out, cases = [HELP], []
    probe = {"m.c": ["_set_a", "_get_a", "_unset_a", "_pyangbind_elements", "_pybind_generated_by"], "m.a": [], "m.ll": ["_list", "_allowed_type", "_unique"], "m.l": ["_members", "_keyval", "_contained_class", "_ordered"], "m.l['a[b']": ["_set_v", "_get_k", "_set_k"], "m.bt": ["_allowed_bits", "_check_bit"], "m.n": ["_restriction_dict"]}
    for n, extra in probe.items():
        names = OWN + [x[1:] for x in extra]
        for i in range(0, len(names), 6):
            part = names[i:i + 6]
            j = len(cases)
            cls = "class Y(object):\n" + "".join("    def %s(self, *args, **kw):\n        return 'ext'\n" % x for x in part + ["aaa", "zzz"])
            out.append(cls.replace("class Y", "class Y%d" % j))
            body = ["m = mod(extmethods={%r: Y%d()})" % (NODES[n], j), "e = fill(m)", "x = %s" % n, "r = [x._aaa(), x._zzz()]"]
            for p in part:
                body += ["try:", "    r.append(x._%s(nosuch=1) == 'ext')" % p, "except (AttributeError, TypeError):", "    r.append(False)"]
            body.append("return r")
            out.append("def f_%d():\n    %s\n" % (j, "\n    ".join(body)))
            cases.append(("%s: %s" % (n, " ".join(part)), ["ext", "ext"] + [False] * len(part)))
    out.append("class W(object):\n    def set(self, **kw):\n        return 'ext'\n    def get_a(self, **kw):\n        return 'ext'\n    def set_a(self, *a, **kw):\n        return 'ext'\n    def changed(self, **kw):\n        return 'ext'\n    def path(self, **kw):\n        return 'ext'\n")
    for n, leafs in (("m.c", "a"), ("m.x2", "y"), ("m.l['a[b']", "v")):
        j = len(cases)
        out.append("def f_%d():\n    m = mod(extmethods={%r: W()})\n    e = fill(m)\n    x = %s\n    x.%s = 'v'\n    x._set_%s('w')\n    return x.%s, x._changed(), x._path() != 'ext', x._get_%s(), x._set()\n" % (j, NODES[n], n, leafs, leafs, leafs, leafs))
        cases.append(("%s still works" % n, ("w", True, True, "w", None)))
    g = lab.bind("\n".join(out), M("mod", *SCH), use_extmethods=True)
    for j, (n, w) in enumerate(cases):
        run(ctx, lab, g, n, "f_%d" % j, {}, w, site=SITE)


@rule("C29", "other-modules", 6, limit=150)
def others(ctx):
    """Paths have no module names, also for what other modules added; names with hyphens and reserved words are those of the schema."""
    lab = ctx.lab()
    other = M("other", prefix="op")
    md = M("mod", S("container", "c-1", leaf("a-b", "string"), leaf("class", "string"), leaf("_u", "string"), leaf("u_", "string"), leaf("u", "string"), S("leaf", "g", typ("string"), aug="other"), S("container", "h", leaf("i", "string"), aug="other")), prefix="mp")
    nodes = {"m.c_1": "/c-1", "m.c_1.a_b": "/c-1/a-b", "m.c_1.class_": "/c-1/class", "m.c_1._get__u()": "/c-1/_u", "m.c_1.u_": "/c-1/u_", "m.c_1.u": "/c-1/u", "m.c_1.g": "/c-1/g", "m.c_1.h": "/c-1/h", "m.c_1.h.i": "/c-1/h/i"}
    paths = list(nodes.values()) + ["/c_1", "/c_1/a_b", "/c-1/class_", "/c-1/op:g", "/mp:c-1", "/g"]
    out = [HELP.split("def fill")[0] + "def has(x):\n    return hasattr(x, '_commit')\n"]
    for j, p in enumerate(paths):
        out.append("def f_%d():\n    m = mod(extmethods={%r: X()})\n    return [%s]\n" % (j, p, ", ".join("has(%s)" % n for n in nodes)))
    g = lab.bind("\n".join(out), other, md, only=["mod"], use_extmethods=True)
    for j, p in enumerate(paths):
        run(ctx, lab, g, p, "f_%d" % j, {}, [q == p for q in nodes.values()], site=SITE)
