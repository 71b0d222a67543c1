"""C25: entries of lists keep their order; user ordering survives dump and load."""

import itertools

from .common import *
from .c10 import strict
from .c31 import LOADS, LOADI, LOADJ, LOADX, SITES

explain("C25", "Lists (keyed by one and several keys, user-ordered and not, nested, without keys, under choices and augmented) are filled, emptied and reordered in every order of a few operations, read through each of the accessors, dumped and loaded again; interpreted abstractly, the sequences of entries are compared with the order of insertion, and the recorded positions in the default JSON with the sequence 0, 1, 2, ... . Documents with every permutation of recorded positions, with gaps, repeated and missing positions are loaded.")

LT = YT + "YANGListType.<locals>.YANGList"


def lst(name, user, *more):
    return S("list", name, S("key", "k"), *([S("ordered-by", "user")] if user is True else [S("ordered-by", "system")] if user is False else []), leaf("k", "string"), leaf("v", "string"), *more)


MOD = M("mod", lst("u", True, lst("ui", True), lst("si", None)), lst("s", None, lst("iu", True)), lst("sys", False), S("list", "n", S("key", "k"), S("ordered-by", "user"), leaf("k", "int8"), leaf("v", "string")), S("list", "u2", S("key", "a b"), S("ordered-by", "user"), leaf("a", "string"), leaf("b", "int8"), leaf("v", "string")),
        S("container", "c", lst("cu", True), S("choice", "ch", S("case", "x", lst("xu", True))), S("leaf-list", "ll", S("ordered-by", "user"), typ("string")), S("leaf-list", "l2", typ("int8"))))
# list, how to add, ordered by user
PLACES = [("u", "m.u", True), ("s", "m.s", False), ("sys", "m.sys", False), ("cu", "m.c.cu", True), ("xu", "m.c.xu", True)]
OPS = [("in order", ["+a", "+b", "+c"]), ("long names", ["+interface-number-two", "+interface-number-one", "+zebra", "+interface-number-10", "+interface-number-9"]), ("signs and letter case", ["+b", "+A", "+a", "+B", "+ ", "+10", "+9", "+-1", "+_"]), ("backwards", ["+c", "+b", "+a"]), ("mixed", ["+b", "+c", "+a"]), ("deleted", ["+c", "+a", "+b", "-a"]), ("first deleted", ["+c", "+a", "-c", "+b"]), ("added again", ["+c", "+a", "-c", "+c"]), ("emptied", ["+a", "+b", "-a", "-b", "+b", "+a"]), ("changed later", ["+b", "+a", "*b"]), ("ten", ["+%s" % x for x in "jihgfabcde"])]


def sequence(ops):
    out = []
    for o in ops:
        if o[0] == "+":
            out.append(o[1:])
        elif o[0] == "-":
            out.remove(o[1:])
    return out


@rule("C25", "order-of-insertion", 100, limit=200)
def insertion(ctx):
    lab = ctx.lab()
    out = [LOADS]
    for i, (pn, p, user) in enumerate(PLACES):
        for j, (on, ops) in enumerate(OPS):
            body = "\n    ".join("%s.add('%s')" % (p, o[1:]) if o[0] == "+" else "%s.delete('%s')" % (p, o[1:]) if o[0] == "-" else "%s['%s'].v = 'changed'" % (p, o[1:]) for o in ops)
            out.append("def f_%d_%d():\n    m = mod()\n    %s\n    t = %s\n    return [k for k in t], [k for k in t.keys()], [e.k for e in t.values()], [x[0] for x in t.items()], [x[0] for x in t.iteritems()], [e.k for e in t.itervalues()], [k for k in t.get()], [k for k in t.get(filter=True)], len(t)\n" % (i, j, body, p))
            out.append("def d_%d_%d():\n    m = mod()\n    %s\n    d = pbj.dumps(m)\n    %s\n    j = pbj.dumps(m, mode='ietf')\n    for x in %r:\n        j = j[x]\n    return [[k for k in d], [d[k].get('__yang_order', None) for k in d], [e['k'] for e in j]]\n" % (i, j, body, "d = d['%s']" % pn if "c." not in p else "d = d['c']['%s']" % pn, ["mod:" + pn] if "c." not in p else ["mod:c", pn]))
    g = lab.bind("\n".join(out), MOD)
    for i, (pn, p, user) in enumerate(PLACES):
        for j, (on, ops) in enumerate(OPS):
            w = sequence(ops)
            n = "%s %s" % (pn, on)
            run_each(ctx, lab, g, "f_%d_%d" % (i, j), {}, [(n + " " + a, w) for a in ("iteration", "keys", "values", "items", "iteritems", "itervalues", "get", "filtered get")] + [(n + " length", len(w))], LT)
            run_each(ctx, lab, g, "d_%d_%d" % (i, j), {}, [(n + " json", w), (n + " positions", list(range(len(w))) if user else [None] * len(w)), (n + " ietf", w)], SER + "YangDataSerialiser.preprocess_element")


@rule("C25", "round-trip", 20, limit=200)
def trips(ctx):
    """What was dumped loads in the same order, whatever the order of the members in the document."""
    lab = ctx.lab()
    out = [LOADS, "def shuffled(d):\n    return {k: d[k] for k in sorted(d)}\n"]
    P = [("u", "m.u", "d['u']"), ("cu", "m.c.cu", "d['c']['cu']"), ("nested", "m.s.add('q').iu", "d['s']['q']['iu']"), ("nested in ordered", "m.u.add('q').ui", "d['u']['q']['ui']")]
    for i, (pn, p, q) in enumerate(P):
        for j, (on, ops) in enumerate(OPS):
            body = "\n    ".join("t.add('%s')" % o[1:] if o[0] == "+" else "t.delete('%s')" % o[1:] if o[0] == "-" else "t['%s'].v = 'changed'" % o[1:] for o in ops)
            back = {"u": "n.u", "cu": "n.c.cu", "nested": "n.s['q'].iu", "nested in ordered": "n.u['q'].ui"}[pn]
            out.append("def f_%d_%d():\n    m = mod()\n    t = %s\n    %s\n    r = []\n    for rt in (rt_json, rt_ietf, rt_xml):\n        n = mod()\n        if attempt(rt, m, n) == 'raises':\n            r.append('raises')\n        else:\n            r.append([k for k in %s])\n    d = pbj.dumps(m)\n    n = mod()\n    %s = shuffled(%s)\n    if attempt(lj, d, n) == 'raises':\n        r.append('raises')\n    else:\n        r.append([k for k in %s])\n    return r\n" % (i, j, p, body, back, q, q, back))
    out.append("def two():\n    m = mod()\n    m.u2.add(a='z', b=1)\n    m.u2.add(a='a', b=2)\n    m.u2.add(a='m', b=3)\n    m.n.add(7)\n    m.n.add(-3)\n    m.n.add(0)\n    m.c.ll = ['q', 'b', 'c']\n    m.c.l2 = [9, 1, 5]\n    r = []\n    for rt in (rt_json, rt_ietf, rt_xml):\n        n = mod()\n        if attempt(rt, m, n) == 'raises':\n            r.append('raises')\n        else:\n            r.append(([k for k in n.u2], [e.k for e in n.n.values()], [x for x in n.c.ll], [x for x in n.c.l2]))\n    return r\n")
    g = lab.bind("\n".join(out), MOD)
    for i, (pn, p, q) in enumerate(P):
        for j, (on, ops) in enumerate(OPS):
            w = sequence(ops)
            run_each(ctx, lab, g, "f_%d_%d" % (i, j), {}, [("%s %s %s" % (pn, on, x), w) for x in ("json", "ietf", "xml", "json sorted by name")], LOADJ)
    run_each(ctx, lab, g, "two", {}, [("other keys " + x, (["z 1", "a 2", "m 3"], [7, -3, 0], ["q", "b", "c"], [9, 1, 5])) for x in ("json", "ietf", "xml")], LOADJ)


@rule("C25", "recorded-positions", 30, limit=200)
def positions(ctx):
    """Documents with positions in any order, with gaps, repeated, and missing."""
    lab = ctx.lab()
    cases = []
    for perm in itertools.permutations((0, 1, 2)):
        cases.append(("positions %d %d %d" % perm, list(zip("abc", perm))))
    cases += [("gaps", [("a", 10), ("b", 2), ("c", 9)]), ("large", [("a", 100), ("b", 99), ("c", 20)]), ("repeated", [("a", 1), ("b", 0), ("c", 1)]), ("all the same", [("a", 0), ("b", 0), ("c", 0)]), ("one missing", [("a", None), ("b", 1), ("c", 0)]), ("first only", [("a", 3), ("b", None), ("c", None)]), ("last only", [("a", None), ("b", None), ("c", 0)]), ("middle missing", [("a", 1), ("b", None), ("c", 0), ("d", None)]), ("none", [("a", None), ("b", None)]), ("negative", [("a", 0), ("b", -1)])]
    out = [LOADS]
    for i, (n, es) in enumerate(cases):
        d = {k: dict({"k": k}, **({} if p is None else {"__yang_order": p})) for k, p in es}
        out.append("def f_%d():\n    r = []\n    for doc, where in (({'u': %r}, 0), ({'c': {'cu': %r}}, 1)):\n        m = mod()\n        if attempt(lj, doc, m) == 'raises':\n            r.append('raises')\n        else:\n            r.append([k for k in (m.c.cu if where else m.u)])\n    m = mod()\n    m.u.add('first')\n    attempt(lj, {'u': %r}, m)\n    r.append([k for k in m.u])\n    return r\n" % (i, d, d, d))
    g = lab.bind("\n".join(out), MOD)

    def inorder(es, first=()):
        def want(r, rep):
            if isinstance(r, (Opaque, Term)):
                return None
            if not isinstance(r, list) or any(not isinstance(x, str) for x in r):
                return False if r == "raises" else None
            if list(r[: len(first)]) != list(first):
                return False
            r = r[len(first):]
            if sorted(r) != sorted(k for k, p in es):
                return False
            pos = dict(es)
            seen = [pos[k] for k in r]
            known = [p for p in seen if p is not None]
            return seen[: len(known)] == sorted(known)

        return want

    for i, (n, es) in enumerate(cases):
        run_each(ctx, lab, g, "f_%d" % i, {}, [(n, inorder(es)), (n + " nested", inorder(es)), (n + " after an entry", inorder(es, ("first",)))], LOADJ)
