"""C07: a list entry is stored under exactly the key its key leaves hold."""

from .common import *

explain("C07", "Drivers that add entries in every way (positional, by keyword, by object, by item assignment) to lists with one, two and three keys of every kind and name are interpreted abstractly through emitted code and library; checked are the stored keys, the key leaves, refusals and what they leave behind.")

BITS = typ("bits", S("bit", "p", S("position", "0")))
# key type -> (type, good key, text of it, bad keys)
TYPES = {
    "string": ("string", "'k1'", "k1", []),
    "int8": ("int8", "5", "5", ["300", "'x'"]),
    "uint64": ("uint64", "5", "5", ["-1"]),
    "ranged": (typ("int32", S("range", "1..5")), "3", "3", ["0", "6"]),
    "pattern": (typ("string", S("pattern", "a+")), "'aa'", "aa", ["'b'"]),
    "enumeration": (typ("enumeration", S("enum", "A"), S("enum", "B")), "'A'", "A", ["'C'"]),
    "union": (typ("union", typ("uint8"), typ("enumeration", S("enum", "auto"))), "'auto'", "auto", ["'x'"]),
    "identityref": (typ("identityref", S("base", "idb")), "'idd'", "idd", ["'idx'"]),
    "leafref": (typ("leafref", S("path", "/z")), "'q'", "q", []),
    "decimal64": (typ("decimal64", S("fraction-digits", "1")), "'1.5'", "1.5", ["'x'"]),
    "typedef": ("td", "3", "3", ["0", "6"]),
}
HEAD = [S("identity", "idb"), S("identity", "idd", S("base", "idb")), S("typedef", "td", typ("int32", S("range", "1..5"))), leaf("z", "string")]
D1 = '''
def add_{i}():
    m = mod()
    e = m.c.l{i}.add({k})
    return str(e.k), [str(x) for x in m.c.l{i}], len(m.c.l{i}), m.c.l{i}[{k}] is e, {k} in m.c.l{i}, e._get_k()._changed(), e.v._changed(), e.k._is_keyval, e.v._is_keyval
def kw_{i}():
    m = mod()
    e = m.c.l{i}.add(k={k})
    return str(e.k), [str(x) for x in m.c.l{i}], len(m.c.l{i})
def app_{i}():
    m = mod()
    o = m.c.l{i}._new_item()
    o._set_k({k})
    o.v = "w"
    m.c.l{i}.append(o)
    x = list(m.c.l{i}.values())[0]
    return str(x.k), [str(y) for y in m.c.l{i}], len(m.c.l{i}), x.v
def twice_{i}():
    m = mod()
    e = m.c.l{i}.add({k})
    e.v = "w"
    r = False
    try:
        m.c.l{i}.add({k})
    except KeyError:
        r = True
    return r, len(m.c.l{i}), m.c.l{i}[{k}] is e, e.v
def re_{i}():
    m = mod()
    e = m.c.l{i}.add({k})
    r = False
    try:
        e.k = {k}
    except AttributeError:
        r = True
    return r, str(e.k), [str(x) for x in m.c.l{i}]
def kwtwice_{i}():
    m = mod()
    e = m.c.l{i}.add(k={k})
    e.v = "w"
    r = False
    try:
        m.c.l{i}.add(k={k})
    except KeyError:
        r = True
    return r, len(m.c.l{i}), e.v
'''
BAD = '''
def bad_{i}_{j}():
    m = mod()
    e = m.c.l{i}.add({k})
    r = False
    try:
        m.c.l{i}.add({b})
    except (KeyError, ValueError):
        r = True
    return r, len(m.c.l{i}), m.c.l{i}[{k}] is e
def badkw_{i}_{j}():
    m = mod()
    r = False
    try:
        m.c.l{i}.add(k={b})
    except (KeyError, ValueError):
        r = True
    return r, len(m.c.l{i})
'''


@rule("C07", "types-of-keys", minimum=40)
def types(ctx):
    lab = ctx.lab()
    D, todo, kids = "", [], []
    for i, (nm, (t, k, s, bad)) in enumerate(TYPES.items()):
        kids.append(S("list", "l%d" % i, S("key", "k"), leaf("k", t), leaf("v", "string")))
        D += D1.format(i=i, k=k)
        one = [s]
        todo += [
            (nm + " key: add", "add_%d" % i, (s, one, 1, True, True, True, False, True, False)),
            (nm + " key: add by keyword", "kw_%d" % i, (s, one, 1)),
            (nm + " key: append", "app_%d" % i, (s, one, 1, "w")),
            (nm + " key: add twice", "twice_%d" % i, (True, 1, True, "w")),
            (nm + " key: add twice by keyword", "kwtwice_%d" % i, (True, 1, "w")),
            (nm + " key: reassign", "re_%d" % i, (True, s, one)),
        ]
        for j, b in enumerate(bad):
            D += BAD.format(i=i, j=j, k=k, b=b)
            todo += [("%s key: refuses %s" % (nm, b), "bad_%d_%d" % (i, j), (True, 1, True)), ("%s key: refuses %s by keyword" % (nm, b), "badkw_%d_%d" % (i, j), (True, 0))]
    g = lab.bind(D, M("mod", *(HEAD + [S("container", "c", *kids)]), prefix="m"))
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(YT + "YANGListType.YANGList.__set"))


# sets of key names: (statement argument, yang names)
NAMES = [("a b", ["a", "b"]), ("b a", ["b", "a"]), ("in class", ["in", "class"]), ("a-b c.d", ["a-b", "c.d"]), ("x in", ["x", "in"]), ("one two three", ["one", "two", "three"]), ("p  q", ["p", "q"]), ("from", ["from"]), ("get-it", ["get-it"]), ("list-v.2", ["list-v.2"]), ("a b c d", ["a", "b", "c", "d"])]
MK = '''
def pos_{i}():
    m = mod()
    e = m.c.l{i}.add({pos})
    return [{leaves}], [str(x) for x in m.c.l{i}], m.c.l{i}[{pos}] is e, {pos} in m.c.l{i}
def kwd_{i}():
    m = mod()
    e = m.c.l{i}.add(**{kw})
    return [{leaves}], [str(x) for x in m.c.l{i}], m.c.l{i}[{pos}] is e
def kwr_{i}():
    m = mod()
    e = m.c.l{i}.add(**{kwrev})
    return [{leaves}], [str(x) for x in m.c.l{i}], m.c.l{i}[{pos}] is e
def itm_{i}():
    m = mod()
    e = m.c.l{i}.add({pos})
    return m.c.l{i}._item(**{kw}) is e
def dup_{i}():
    m = mod()
    e = m.c.l{i}.add({pos})
    r = False
    try:
        m.c.l{i}.add(**{kw})
    except KeyError:
        r = True
    return r, len(m.c.l{i}), m.c.l{i}[{pos}] is e
def obj_{i}():
    m = mod()
    e = m.c.l{i}._new_item()
    {sets}
    m.c.l{i}.append(e)
    e = m.c.l{i}[{pos}]
    return [{leaves}], [str(x) for x in m.c.l{i}]
def asg_{i}():
    m = mod()
    e = m.c.l{i}._new_item()
    m.c.l{i}[{pos}] = e
    e = m.c.l{i}[{pos}]
    return [{leaves}], [str(x) for x in m.c.l{i}]
def ren_{i}():
    m = mod()
    e = m.c.l{i}.add({pos})
    n = 0
    {res}
    return n, [{leaves}], [str(x) for x in m.c.l{i}]
def two_{i}():
    m = mod()
    e = m.c.l{i}.add({pos})
    f = m.c.l{i}.add({pos2})
    return len(m.c.l{i}), e is f, [str(x) for x in m.c.l{i}], m.c.l{i}[{pos}] is e, m.c.l{i}[{pos2}] is f
'''
MISS = '''
def mis_{i}_{j}():
    m = mod()
    r = False
    try:
        m.c.l{i}.add(**{kw})
    except (AttributeError, KeyError):
        r = True
    return r, len(m.c.l{i})
'''


@rule("C07", "names-and-numbers-of-keys", minimum=60)
def keys(ctx):
    from sa.analysed_names import python_name

    lab = ctx.lab()
    D, todo, kids = "", [], []
    for i, (arg, ns) in enumerate(NAMES):
        ps = [python_name(n) for n in ns]
        vs = ["v%d" % j for j in range(len(ns))]
        kids.append(S("list", "l%d" % i, S("key", arg), *([leaf(n, "string") for n in ns] + [leaf("other", "string")])))
        kw = "{" + ", ".join("%r: %r" % x for x in zip(ps, vs)) + "}"
        kwrev = "{" + ", ".join("%r: %r" % x for x in reversed(list(zip(ps, vs)))) + "}"
        pos = repr(" ".join(vs))
        pos2 = repr(" ".join(vs[:-1] + ["w"]))
        leaves = ", ".join("str(e._get_%s())" % p for p in ps)
        sets = "; ".join("e._set_%s(%r)" % x for x in zip(ps, vs))
        res = "\n    ".join("try:\n        e.%s = 'zz'\n    except AttributeError:\n        n += 1" % p for p in ps)
        D += MK.format(i=i, pos=pos, pos2=pos2, kw=kw, kwrev=kwrev, leaves=leaves, sets=sets, res=res)
        one = [" ".join(vs)]
        what = "key %r: " % arg
        todo += [(what + "add", "pos_%d" % i, (vs, one, True, True)), (what + "keywords", "kwd_%d" % i, (vs, one, True)), (what + "keywords in another order", "kwr_%d" % i, (vs, one, True)),
                 (what + "look up by keywords", "itm_%d" % i, True), (what + "existing key", "dup_%d" % i, (True, 1, True)), (what + "append", "obj_%d" % i, (vs, one)), (what + "item assignment", "asg_%d" % i, (vs, one)),
                 (what + "reassign", "ren_%d" % i, (len(ns), vs, one)), (what + "two entries", "two_%d" % i, (2, False, one + [" ".join(vs[:-1] + ["w"])], True, True))]
        for j in range(len(ns)):
            if len(ns) > 1:
                D += MISS.format(i=i, j=j, kw="{" + ", ".join("%r: %r" % x for k, x in enumerate(zip(ps, vs)) if k != j) + "}")
                todo.append((what + "missing " + ns[j], "mis_%d_%d" % (i, j), (True, 0)))
    g = lab.bind(D, M("mod", *(HEAD + [S("container", "c", *kids)]), prefix="m"))
    for inst, fn, w in todo:
        run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(YT + "YANGListType.YANGList.__set"))


ETC = '''
def guard(f):
    try:
        f()
    except KeyError:
        return "KeyError"
    except ValueError:
        return "ValueError"
    except AttributeError:
        return "AttributeError"
    except TypeError:
        return "TypeError"
    return None
def nokey():
    m = mod()
    return guard(lambda: m.c.l.add()), len(m.c.l)
def null():
    m = mod()
    return guard(lambda: m.c.l.add("")), len(m.c.l)
def both():
    m = mod()
    return guard(lambda: m.c.l.add("x", k="x")), len(m.c.l)
def short():
    m = mod()
    return guard(lambda: m.c.t.add("1")), len(m.c.t)
def long():
    m = mod()
    return guard(lambda: m.c.t.add("1 2 3")), len(m.c.t)
def badsecond():
    m = mod()
    return guard(lambda: m.c.t.add("1 300")), guard(lambda: m.c.t.add(a=1, b=300)), guard(lambda: m.c.t.add(a="x", b=3)), len(m.c.t)
def wrong():
    m = mod()
    def f():
        m.c.l["x"] = 5
    def h():
        m.c.l["x"] = m.c.o
    def j():
        m.c.l["x"] = "str"
    def k():
        m.c.l["x"] = m.c.t._new_item()
    return [guard(x) is not None for x in (f, h, j, k)], len(m.c.l)
def detached(v):
    m = mod()
    e = m.c.l._new_item()
    e.k = v
    return e.k
def anykey(v):
    m = mod()
    e = m.c.n.add(v)
    return e.k, m.c.n[v] is e, len(m.c.n), list(m.c.n)
def absent(v):
    m = mod()
    m.c.n.add(5)
    return guard(lambda: m.c.n[6]), 6 in m.c.n, 5 in m.c.n, len(m.c.n)
def keyless():
    m = mod()
    a = m.c.x.add()
    b = m.c.x.add()
    m.c.x[a]._set_v("p")
    m.c.x[b]._set_v("q")
    return len(m.c.x), m.c.x[a].v, m.c.x[b].v
def over():
    m = mod()
    e = m.c.l.add("k1")
    e.v = "w"
    o = m.c.l._new_item()
    o.v = "z"
    m.c.l["k1"] = o
    return len(m.c.l), m.c.l["k1"].v, m.c.l["k1"].k
def mismatch():
    m = mod()
    o = m.c.l._new_item()
    o._set_k("k9")
    o.v = "z"
    m.c.l["k1"] = o
    return len(m.c.l), list(m.c.l), m.c.l["k1"].v, m.c.l["k1"].k
def byval():
    m = mod()
    o = m.c.l._new_item()
    o.v = "z"
    e = m.c.l.add(k="k1", _v=o)
    return len(m.c.l), list(m.c.l), e.v, e.k
def spacetwo():
    m = mod()
    n = guard(lambda: m.c.s.add(a="x", b="y"))
    n2 = guard(lambda: m.c.s.add(a=" x", b="y"))
    n3 = guard(lambda: m.c.s.add(a="x", b="y "))
    return n, n2, n3, list(m.c.s), [[e.a, e.b] for e in m.c.s.values()]
def spaceone():
    m = mod()
    n = guard(lambda: m.c.l.add(k=" x"))
    n2 = guard(lambda: m.c.l.add(k="x "))
    n3 = guard(lambda: m.c.l.add("x"))
    return n, n2, n3, list(m.c.l), [e.k for e in m.c.l.values()]
def incomplete():
    m = mod()
    o = m.c.l._new_item()
    o.v = "z"
    return guard(lambda: m.c.l.append(o)), len(m.c.l)
'''

SPACES = """
def spaces_{i}():
    m = mod()
    x, y = {x!r}, {y!r}
    e = m.c.s.add(a=x, b=y)
    return e.a, e.b, list(m.c.s), m.c.s[x + " " + y] is e
"""
SPACEAPP = """
def spaceapp_{i}():
    m = mod()
    o = m.c.s._new_item()
    o._set_a("x")
    o._set_b({y!r})
    try:
        m.c.s.append(o)
    except KeyError:
        return len(m.c.s) == 0
    e = list(m.c.s.values())[0]
    return e.a == "x" and e.b == {y!r} and list(m.c.s) == ["x " + {y!r}]
"""
PAIRS = [(" x", "y"), ("x", "y "), ("x ", " y"), ("x y", "z"), ("x", "y z")]
LAST = ["y", "y ", "", "y  ", " y", " "]


@rule("C07", "refusals-and-other-ways", minimum=12)
def etc(ctx):
    lab = ctx.lab()
    g = lab.bind(ETC + "".join(SPACES.format(i=i, x=x, y=y) for i, (x, y) in enumerate(PAIRS)) + "".join(SPACEAPP.format(i=i, y=y) for i, y in enumerate(LAST)), M("mod", S("container", "c",
        S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string")), S("list", "t", S("key", "a b"), leaf("a", "int8"), leaf("b", "int8")), S("list", "s", S("key", "a b"), leaf("a", "string"), leaf("b", "string")), S("list", "n", S("key", "k"), leaf("k", "int8")),
        S("list", "x", S("config", "false"), leaf("v", "string")), S("container", "o", leaf("q", "string")))))
    site = lab.site(YT + "YANGListType.YANGList.__set")
    r = lambda inst, fn, w, **k: run(ctx, lab, g, inst, fn, k, w, ({},), site)  # noqa: E731
    r("no key given", "nokey", ("KeyError", 0))
    r("null key", "null", ("KeyError", 0))
    r("positional and keyword key", "both", ("AttributeError", 0))
    r("too few parts", "short", ("KeyError", 0))
    r("too many parts", "long", ("KeyError", 0))
    r("an invalid second key", "badsecond", ("KeyError", "KeyError", "KeyError", 0))
    r("object of another class", "wrong", ([True] * 4, 0))
    r("key of an entry outside a list", "detached", P("v"), v="str")
    run(ctx, lab, g, "any integer key", "anykey", {"v": "int"}, lambda x, rep: (x.name in ("KeyError", "ValueError") if isinstance(x, Raised) else False) if not -128 <= rep["v"] <= 127 else False if isinstance(x, Raised) else same(x, (rep["v"], True, 1, [rep["v"]])), vals(-129, -128, 0, 5, 127, 128), site)
    r("absent key", "absent", ("KeyError", False, True, 1), v="int")
    r("list without key", "keyless", (2, "p", "q"))
    r("entry replaced", "over", (1, "z", "k1"))
    r("entry with another key in its leaf", "mismatch", (1, ["k1"], "z", "k1"))
    r("entry given by value", "byval", (1, ["k1"], "z", "k1"))
    for i, (x, y) in enumerate(PAIRS):
        r("keys with spaces: %r, %r" % (x, y), "spaces_%d" % i, (x, y, [x + " " + y], True))
    r("keys told apart by spaces", "spacetwo", (None, None, None, ["x y", " x y", "x y "], [["x", "y"], [" x", "y"], ["x", "y "]]))
    r("single keys told apart by spaces", "spaceone", (None, None, None, [" x", "x ", "x"], [" x", "x ", "x"]))
    for i, y in enumerate(LAST):
        r("append of an entry with the keys x and %r" % y, "spaceapp_%d" % i, True)
    r("entry without its key", "incomplete", ("KeyError", 0))
