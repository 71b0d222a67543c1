"""C14: loading with overwrite replaces, loading without it merges."""

import copy

from .common import *
from .c10 import strict
from .c31 import LOADS, LOADI, LOADJ, LOADX

explain("C14", "Onto a set of existing trees a set of documents is loaded, with and without overwrite, by the JSON, IETF JSON and (without) XML decoders, interpreted abstractly through the emitted setters and the list machinery; the resulting tree is compared with the one computed from the statement: the merge of both, or the document in place of every container and list it has. Keys of the existing and of the loaded entries are also left symbolic, so that both the case that they are equal and that they are not are covered.")

SITES = {"json": LOADJ, "ietf": LOADI, "xml": LOADX}
LISTS = ("l", "n", "i", "top", "two", "w64")
MOD_C = S("container", "c", leaf("a", "string"), leaf("b", "int8", S("default", "3")), S("leaf-list", "ll", typ("string")), S("container", "d", leaf("z", "string"), S("container", "dd", leaf("y", "string"))),
      S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), leaf("w", "string"), S("container", "ec", leaf("q", "string"), leaf("r", "string")), S("list", "n", S("key", "j"), leaf("j", "int8"), leaf("x", "string"))),
      S("list", "i", S("key", "k"), leaf("k", "int8"), leaf("v", "string"), leaf("w", "string")))
MOD_TOP = S("list", "top", S("key", "k"), leaf("k", "string"), leaf("v", "string"), leaf("w", "string"), S("container", "tc", leaf("q", "string"), leaf("r", "string")))
MOD_TWO = S("list", "two", S("key", "g h"), leaf("g", "string"), leaf("h", "int8"), leaf("v", "string"), leaf("w", "string"))
MOD_64 = S("list", "w64", S("key", "k"), leaf("k", "uint64"), leaf("v", "string"), leaf("w", "string"))
MOD = M("mod", leaf("a", "string"), MOD_C, MOD_TOP, MOD_TWO, MOD_64)
EXISTING = [
    ("empty", {}),
    ("full", {"a": "a0", "c": {"a": "ca0", "b": 7, "ll": ["1", "2"], "d": {"z": "z0", "dd": {"y": "y0"}}, "l": {"x": {"k": "x", "v": "v0", "w": "w0", "ec": {"q": "q0", "r": "r0"}, "n": {"1": {"j": 1, "x": "x0"}, "5": {"j": 5}}}, "y": {"k": "y", "v": "yv"}}, "i": {"1": {"k": 1, "v": "iv", "w": "iw"}, "9": {"k": 9, "w": "iw"}}},
              "top": {"s": {"k": "s", "v": "tv", "w": "tw", "tc": {"q": "tq", "r": "tr"}}, "t": {"k": "t", "w": "tw2"}, "u": {"k": "u"}}, "two": {"p 1": {"g": "p", "h": 1, "v": "pv", "w": "pw"}, "p 2": {"g": "p", "h": 2}}, "w64": {"7": {"k": 7, "v": "7v", "w": "7w"}, "8": {"k": 8, "w": "8w"}}}),
]
DOCS = [
    ("nothing", {}), ("leaf", {"a": "a1"}), ("container leaf", {"c": {"a": "ca1"}}), ("container empty", {"c": {}}), ("leaf-list", {"c": {"ll": ["2", "3"]}}), ("leaf-list in another order", {"c": {"ll": ["2", "1"]}}), ("leaf-list with doubles", {"c": {"ll": ["4"]}}), ("inner container", {"c": {"d": {"dd": {"y": "y1"}}}}), ("inner container empty", {"c": {"d": {}}}),
    ("same entry", {"c": {"l": {"x": {"k": "x", "v": "v1"}}}}), ("new entry", {"c": {"l": {"z": {"k": "z", "w": "zw"}}}}), ("two entries", {"c": {"l": {"x": {"k": "x", "w": "w1"}, "z": {"k": "z"}}}}), ("three entries", {"c": {"l": {"z": {"k": "z"}, "y": {"k": "y"}, "x": {"k": "x"}}}}), ("list empty", {"c": {"l": {}}}),
    ("inner list", {"c": {"l": {"x": {"k": "x", "n": {"2": {"j": 2, "x": "n2"}}}}}}), ("inner list same", {"c": {"l": {"x": {"k": "x", "n": {"1": {"j": 1}}}}}}), ("inner list empty", {"c": {"l": {"x": {"k": "x", "n": {}}}}}), ("container of entry", {"c": {"l": {"x": {"k": "x", "ec": {"q": "q1"}}}}}),
    ("number key", {"c": {"i": {"1": {"k": 1, "v": "i1"}, "3": {"k": 3, "v": "i3"}}}}), ("top list", {"top": {"s": {"k": "s", "v": "v1"}}}), ("top list others", {"top": {"t": {"k": "t", "v": "v1", "tc": {"q": "q1"}}, "n": {"k": "n", "v": "nv"}, "m": {"k": "m"}}}), ("top list empty", {"top": {}}), ("top container of entry", {"top": {"s": {"k": "s", "tc": {"r": "r1"}}}}),
    ("two keys", {"two": {"p 2": {"g": "p", "h": 2, "v": "v2"}, "q 2": {"g": "q", "h": 2, "w": "qw"}}}), ("64-bit key", {"w64": {"7": {"k": 7, "v": "v7"}, "18446744073709551615": {"k": 18446744073709551615}}}),
    ("everything", {"a": "a2", "c": {"a": "ca2", "d": {"z": "z2"}, "l": {"q": {"k": "q", "n": {"3": {"j": 3}}}, "x": {"k": "x", "n": {"4": {"j": 4}, "1": {"j": 1, "x": "x4"}}}}, "i": {"9": {"k": 9, "v": "i9"}}}, "top": {"u": {"k": "u", "w": "uw"}}, "two": {"p 1": {"g": "p", "h": 1, "v": "nv"}}}),
]


def merge(e, d, overwrite, name=None, root=True):
    """What the statement says the tree holds after loading d onto e."""
    out = {} if overwrite and not root else copy.deepcopy(e)
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = merge(out.get(k, {}), v, overwrite, k, False)
        else:
            out[k] = v
    return out


def prune(t):
    if not isinstance(t, dict):
        return t
    out = {k: prune(v) for k, v in t.items()}
    return {k: v for k, v in out.items() if v not in ({}, [])}


def statements(t, obj="m", name=None, ind=""):
    """Assignments that make the tree."""
    out = []
    for k, v in t.items():
        if k in LISTS:
            for kk, e in v.items():
                o = "e%d" % len(obj)
                o = o if o != obj else o + "x"
                if k == "two":
                    out.append("%s = %s.%s.add(g=%r, h=%r)" % (o, obj, k, e["g"], e["h"]))
                else:
                    out.append("%s = %s.%s.add(%r)" % (o, obj, k, list(e.values())[0]))
                out += statements({x: y for x, y in e.items() if x not in ("k", "j", "g", "h")}, o)
        elif isinstance(v, dict):
            out += statements(v, "%s.%s" % (obj, k))
        else:
            out.append("%s.%s = %r" % (obj, k, v))
    return out


def ietf(t, top=True):
    out = {}
    for k, v in t.items():
        n = "mod:" + k if top else k
        if k in LISTS:
            out[n] = [ietf(e, False) for e in v.values()]
            if k == "w64":
                out[n] = [{**e, "k": str(e["k"])} for e in out[n]]
        else:
            out[n] = ietf(v, False) if isinstance(v, dict) else v
    return out


def xml(t, tag="mod"):
    kids = []
    for k, v in t.items():
        if k in LISTS:
            kids += [xml(e, k) for e in v.values()]
        elif isinstance(v, dict):
            kids.append(xml(v, k))
        else:
            kids += ["E(%r, %r)" % (k, str(x)) for x in (v if isinstance(v, list) else [v])]
    return "E(%s)" % ", ".join([repr(tag)] + kids)


def nolists(t):
    """Whether the document can be written in XML (an empty list has no elements), leaf-lists are appended to."""
    return isinstance(t, dict) and all(k != "ll" and (nolists(v) if isinstance(v, dict) else True) and not (k in LISTS and not v) for k, v in t.items())


def documents(name, docs, **kw):
    @rule("C14", name, 20, **kw)
    def _(ctx):
        lab = ctx.lab()
        tops = sorted({k for _, d in docs for k in d} | {"a"})
        sub = {"c": MOD_C, "top": MOD_TOP, "two": MOD_TWO, "w64": MOD_64}
        md = M("mod", leaf("a", "string"), *[sub[k] for k in tops if k in sub])
        out = [LOADS, "from lxml import objectify\nE = objectify.ElementMaker(annotate=False, namespace='urn:mod')\n"]
        cases = []
        for i, (en, e) in enumerate(EXISTING):
            e = {k: v for k, v in e.items() if k in tops}
            out.append("def tree_%d():\n    m = mod()\n    %s\n    return m\n" % (i, "\n    ".join(statements(e) or ["pass"])))
            for j, (dn, d) in enumerate(docs):
                for mode, doc, ovs in (("json", repr(d), (False, True)), ("ietf", repr(ietf(d)), (False, True)), ("xml", xml(d), (None,))):
                    if mode == "xml" and not nolists(d):
                        continue
                    for ov in ovs:
                        arg = "" if ov is None else ", overwrite=%s" % ov
                        fn = "f_%d_%d_%s_%s" % (i, j, mode, ov)
                        out.append("def %s():\n    m = tree_%d()\n    a = attempt(l%s, %s, m%s)\n    return a if a == 'raises' else pbj.dumps(m)\n" % (fn, i, mode[0], doc, arg))
                        cases.append((fn, "%s onto %s, %s%s" % (dn, en, mode, " overwrite" if ov else ""), strict(prune(merge(e, d, bool(ov)))), mode))
        g = lab.bind("\n".join(out), md)
        for fn, n, w, mode in cases:
            run(ctx, lab, g, fn=fn, inst=n, given={}, want=w, site=SITES[mode])


CD = [d for d in DOCS if set(d[1]) <= {"a", "c"} and d[0] != "everything"]
documents("documents-onto-trees-1", CD[0::3], limit=250)
documents("documents-onto-trees-2", CD[1::3], limit=250)
documents("documents-onto-trees-3", CD[2::3], limit=250)
documents("documents-onto-top-lists", [d for d in DOCS if d not in CD and d[0] != "everything"], limit=250)
documents("large-document", [d for d in DOCS if d[0] == "everything"] + [("everything backwards", {k: v for k, v in list(DOCS[-1][1].items())[::-1]})] + DOCS[9:10], limit=250)


@rule("C14", "any-key", 8, limit=200)
def keys(ctx):
    """One entry there, two in the document; the keys are any texts."""
    lab = ctx.lab()
    out = [LOADS]
    cases = []
    for mode in ("json", "ietf"):
        for ov in (False, True):
            for where, lst in (("top", "m.top"), ("inner", "m.c.l")):
                if mode == "json":
                    doc = "{b: {'k': b, 'v': 'b'}, 'yy': {'k': 'yy'}}"
                    doc = "{'top': %s}" % doc if where == "top" else "{'c': {'l': %s}}" % doc
                else:
                    doc = "[{'k': b, 'v': 'b'}, {'k': 'yy'}]"
                    doc = "{'mod:top': %s}" % doc if where == "top" else "{'mod:c': {'l': %s}}" % doc
                fn = "k_%s_%s_%s" % (mode, ov, where)
                out.append("def %s(a, b):\n    m = mod()\n    if a == 'yy' or b == 'yy' or a == '' or b == '':\n        return 'not this'\n    e = %s.add(a)\n    e.v = 'a'\n    e.w = 'w'\n    r = attempt(l%s, %s, m, overwrite=%s)\n    if r == 'raises':\n        return r\n    t = %s\n    return [a in t, b in t, 'yy' in t, t[b].v if b in t else '', t[b].w if b in t else '', len(t)]\n" % (fn, lst, mode[0], doc, ov, lst))

                def want(r, rep, ov=ov):
                    if "yy" in (rep["a"], rep["b"]) or "" in (rep["a"], rep["b"]):
                        return None
                    if isinstance(r, Raised) or r == "raises":
                        return False
                    same_ = rep["a"] == rep["b"]
                    return same(r, [same_ or not ov, True, True, "b", "w" if same_ and not ov else ANY, 2 if same_ or ov else 3])

                cases.append((fn, mode, ov, where, want))
    g = lab.bind("\n".join(out), M("mod", leaf("a", "string"), MOD_TOP, S("container", "c", S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), leaf("w", "string")))))
    reps = [{"a": x, "b": y} for x in ("p", "1", "it's", "x") for y in ("p", "1", "it's", "y")]
    for fn, mode, ov, where, want in cases:
        run(ctx, lab, g, "%s %s%s" % (where, mode, " overwrite" if ov else ""), fn, {"a": "str", "b": "str"}, want, site=SITES[mode], reps=reps)


@rule("C14", "into-classes", 8)
def classes(ctx):
    """The functions of pybindJSON make the object themselves and pass overwrite on."""
    lab = ctx.lab()
    out = [LOADS, "class P(object):\n    pass\nP.mod = mod\nclass PH(object):\n    def __init__(self, m):\n        self.m = m\n    def get(self, p, caller=False):\n        return [self.m]\n    def register(self, *a, **kw):\n        pass\n    def unregister(self, *a, **kw):\n        pass\n"]
    for mode, f, doc in (("json", "loads", {"c": {"l": {"x": {"k": "x", "v": "v1"}}}}), ("ietf", "loads_ietf", {"mod:c": {"l": [{"k": "x", "v": "v1"}]}})):
        for ov in (False, True):
            out.append("def of_%s_%s():\n    m = mod()\n    m.c.l.add('y')\n    m.c.l.add('x').w = 'w0'\n    open('doc', 'w').write(%r)\n    r = attempt(pbj.%s, 'doc', P, 'mod', path_helper=PH(m), overwrite=%s)\n    if r == 'raises':\n        return r\n    return pbj.dumps(r)\n" % (mode, ov, doc, f.replace("loads", "load"), ov))
            out.append("def f_%s_%s():\n    m = mod()\n    m.c.l.add('y')\n    m.c.l.add('x').w = 'w0'\n    r = attempt(pbj.%s, %r, P, 'mod', path_helper=PH(m), overwrite=%s)\n    if r == 'raises':\n        return r\n    return pbj.dumps(r)\n" % (mode, ov, f, doc, ov))
    g = lab.bind("\n".join(out), MOD)
    for mode in ("json", "ietf"):
        for ov in (False, True):
            w = {"c": {"l": {"x": {"k": "x", "v": "v1"}}}} if ov else {"c": {"l": {"y": {"k": "y"}, "x": {"k": "x", "w": "w0", "v": "v1"}}}}
            run(ctx, lab, g, "load %s%s" % (mode, " overwrite" if ov else ""), "of_%s_%s" % (mode, ov), {}, strict_(w), site=PJ + ("load" if mode == "json" else "load_ietf"))
            run(ctx, lab, g, "loads %s%s" % (mode, " overwrite" if ov else ""), "f_%s_%s" % (mode, ov), {}, strict_(w), site=PJ + ("loads" if mode == "json" else "loads_ietf"))


def strict_(w):
    f = strict(w)
    return lambda r, rep: False if r == "raises" else f(r, rep)
