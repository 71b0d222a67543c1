"""C09: a leaf-list only ever holds valid, distinct values."""

from .common import *

explain("C09", "For leaf-lists of every kind of type, drivers put a value in by every operation there is (append, insert, item and slice-free assignment, extend, +=, whole assignment, from another leaf-list, single value) and are interpreted abstractly through emitted code and library; values are symbolic per kind of input (every integer, every text) or constants at the edges. Checked are what is stored, refusals and what they leave behind, uniqueness of the typed values, deletion and order.")

SITE = YT + "TypedListType.TypedList.check"
# kind -> (type, [(given, stored text)], [refused], None | (same value written differently))
KINDS = {
    "string": ("string", [("'x'", "x"), ("''", ""), ("'x y'", "x y"), ("'1'", "1")], ["1", "None", "[]", "True"], None),
    "int8": ("int8", [("5", "5"), ("'5'", "5"), ("-128", "-128"), ("127", "127"), ("0", "0")], ["300", "-129", "128", "'x'", "None", "'300'"], ("5", "'5'")),
    "uint16": ("uint16", [("65535", "65535"), ("'0'", "0")], ["-1", "65536", "'x'", "None"], ("'7'", "7")),
    "uint64": ("uint64", [("18446744073709551615", "18446744073709551615")], ["18446744073709551616", "-1", "None"], ("1", "'1'")),
    "ranged": (typ("int32", S("range", "1..5 | 10")), [("1", "1"), ("5", "5"), ("10", "10")], ["0", "6", "9", "11", "'x'", "None"], ("'3'", "3")),
    "length": (typ("string", S("length", "2..3")), [("'ab'", "ab"), ("'abc'", "abc")], ["'a'", "'abcd'"], None),
    "pattern": (typ("string", S("pattern", "a+b")), [("'ab'", "ab"), ("'aab'", "aab")], ["'a'", "'abb'", "'xab'", "'ab\\n'"], None),
    "pattern and length": (typ("string", S("length", "1..3"), S("pattern", "a*")), [("'a'", "a"), ("'aaa'", "aaa")], ["'aaaa'", "'b'", "''"], None),
    "enumeration": (typ("enumeration", S("enum", "A"), S("enum", "B-c")), [("'A'", "A"), ("'B-c'", "B-c")], ["'C'", "'a'", "''", "1", "None"], None),
    "identityref": (typ("identityref", S("base", "idb")), [("'idd'", "idd"), ("'m:idd'", "m:idd")], ["'idb'", "'x'", "''"], None),
    "boolean": ("boolean", [("True", "True"), ("False", "False"), ("'true'", "True"), ("'false'", "False")], ["'x'", "None", "5"], ("True", "'true'")),
    "decimal64": (typ("decimal64", S("fraction-digits", "2")), [("'1.5'", "1.50"), ("2", "2.00")], ["'x'", "'1.x'"], ("'1.5'", "'1.50'")),
    "bits": (typ("bits", S("bit", "p", S("position", "0")), S("bit", "q", S("position", "1"))), [("'p'", "p"), ("'q p'", "p q")], ["'x'", "'p x'", "5"], ("'p q'", "'q p'")),
    "binary": ("binary", [("'YQ=='", "a"), ("b'xy'", "xy")], ["5", "None", "'A'"], ("'YQ=='", "b'a'")),
    "typedef": ("td", [("3", "3"), ("'7'", "7")], ["0", "8", "'x'"], ("3", "'3'")),
    "typedef of a typedef": ("td2", [("3", "3"), ("'5'", "5")], ["0", "2", "6", "'x'"], ("3", "'3'")),
    "leafref": (typ("leafref", S("path", "/z")), [("'q'", "q")], ["5"], None),
    "union": (typ("union", typ("uint8"), typ("enumeration", S("enum", "auto"))), [("7", "7"), ("'7'", "7"), ("'auto'", "auto")], ["300", "'x'", "-1", "None"], ("7", "'7'")),
    "union with string": (typ("union", typ("int8"), typ("string")), [("7", "7"), ("'x'", "x"), ("'300'", "300")], ["300", "None"], ("7", "'7'")),
    "union of restrictions": (typ("union", typ("string", S("pattern", "a+")), typ("int32", S("range", "1..3"))), [("'a'", "a"), ("2", "2"), ("'2'", "2")], ["'b'", "4", "0"], ("2", "'2'")),
    "union with bits": (typ("union", typ("uint8"), typ("bits", S("bit", "p", S("position", "0")), S("bit", "q", S("position", "1")))), [("7", "7"), ("'q p'", "p q")], ["'x'", "300"], ("'p q'", "'q p'")),
    "union in a union": (typ("union", typ("union", typ("uint8"), typ("enumeration", S("enum", "A"))), typ("enumeration", S("enum", "B"))), [("7", "7"), ("'A'", "A"), ("'B'", "B")], ["'C'", "300"], ("7", "'7'")),
}
WAYS = {
    "append": "l.append({v})",
    "insert": "l.insert(0, {v})",
    "item assignment": "l[0] = {v}",
    "extend": "l.extend([{v}])",
    "augmented assignment": "l += [{v}]",
    "assignment of a list": "m.c.l{i} = [{v}]",
    "assignment of one value": "m.c.l{i} = {v}",
    "assignment of a leaf-list": "m.c.l{i} = src.c.l{i}",
    "the private setter": "m.c._set_l{i}([{v}])",
}
HEADS = [S("identity", "idb"), S("identity", "idd", S("base", "idb")), S("typedef", "td", typ("int32", S("range", "1..7"))), S("typedef", "td2", typ("td", S("range", "3..5"))), leaf("z", "string")]


def schema(only=None):
    return M("mod", *(HEADS + [S("container", "c", *[S("leaf-list", "l%d" % i, t if isinstance(t, tuple) else typ(t)) for i, (t, _, _, _) in enumerate(KINDS.values()) if only is None or i == only])]), prefix="m")


def wanted_text(t):
    def want(r, rep):
        if isinstance(r, Raised):
            return False
        if isinstance(r, Opaque) or not isinstance(r, tuple):
            return None
        return same(r, t)

    return want


@rule("C09", "values-put-in", minimum=150, limit=300)
def put(ctx):
    lab = ctx.lab()
    parts = []
    for i, (nm, (t, good, bad, dup)) in enumerate(KINDS.items()):
        src, todo = "", []
        for w, (way, code) in enumerate(WAYS.items()):
            for j, (g, text) in enumerate(good):
                pre = "    src = mod()\n    src.c.l%d.append(%s)\n" % (i, g) if "leaf-list" in way else ""
                src += "def g_%d_%d_%d():\n    m = mod()\n%s    l = m.c.l%d\n    %s\n    return [str(x) for x in m.c.l%d], len(m.c.l%d), type(m.c.l%d[0]) in m.c.l%d._allowed_type\n" % (i, w, j, pre, i, code.format(v=g, i=i), i, i, i, i)
                todo.append(("%s: %s of %s" % (nm, way, g), "g_%d_%d_%d" % (i, w, j), ([text], 1, True if nm not in ("string", "leafref", "union with string") else ANY)))
            for j, b in enumerate(bad):
                if "leaf-list" in way or (b == "[]" and "one value" in way) or (b == "None" and "one value" in way):
                    continue
                keep = good[0][0]
                src += "def b_%d_%d_%d():\n    m = mod()\n    m.c.l%d.append(%s)\n    l = m.c.l%d\n    r = False\n    try:\n        %s\n    except ValueError:\n        r = True\n    return r, [str(x) for x in m.c.l%d]\n" % (i, w, j, i, keep, i, code.format(v=b, i=i), i)
                todo.append(("%s: %s refuses %s" % (nm, way, b), "b_%d_%d_%d" % (i, w, j), (True, [good[0][1]])))
        parts.append((src, todo, i))
    site = lab.site(SITE)
    for src, todo, i in parts:
        g = lab.bind(src, schema(only=i))
        for inst, fn, w in todo:
            run(ctx, lab, g, inst, fn, {}, w, ({},), site)


UNIQ = '''
def u0_{i}():
    m = mod()
    m.c.l{i}.append({a})
    m.c.l{i}.append({b})
    return len(m.c.l{i})
def u1_{i}():
    m = mod()
    m.c.l{i} = [{a}, {b}, {a}]
    return len(m.c.l{i})
def u2_{i}():
    m = mod()
    m.c.l{i}.append({a})
    r = 0
    for f in (lambda: m.c.l{i}.insert(0, {b}), lambda: m.c.l{i}.insert(1, {b}), lambda: m.c.l{i}.__setitem__(0, {b}), lambda: m.c.l{i}.__setitem__(1, {b})):
        try:
            f()
        except ValueError:
            r += 1
    return len(m.c.l{i}), r
def u3_{i}():
    m = mod()
    m.c.l{i}.append({a})
    m.c.l{i}.extend([{b}, {a}, {b}])
    return len(m.c.l{i})
def u4_{i}():
    m = mod()
    m.c.l{i}.append({a})
    m.c.l{i} += [{b}]
    return len(m.c.l{i})
def u5_{i}():
    m = mod()
    m.c.l{i}.append({a})
    l = m.c.l{i}
    del m.c.l{i}[0]
    m.c.l{i}.append({b})
    return len(m.c.l{i})
'''


@rule("C09", "no-duplicates", minimum=60)
def unique(ctx):
    lab = ctx.lab()
    src, todo = "", []
    for i, (nm, (t, good, bad, dup)) in enumerate(KINDS.items()):
        src, todo = "", []
        a, b = dup or (good[0][0], good[0][0])
        src += UNIQ.format(i=i, a=a, b=b)
        w = "%s: %s and %s" % (nm, a, b)
        todo += [(w + " appended", "u0_%d" % i, 1), (w + " assigned", "u1_%d" % i, 1), (w + " inserted", "u2_%d" % i, (1, 4)), (w + " extended", "u3_%d" % i, 1), (w + " added", "u4_%d" % i, 1), (w + " after deletion", "u5_%d" % i, 1)]
        g = lab.bind(src, schema(only=i))
        for inst, fn, w in todo:
            run(ctx, lab, g, inst, fn, {}, w, ({},), lab.site(SITE))


SYM = '''
def ints(v):
    m = mod()
    m.c.l{i}.{how}
    return list(m.c.l{i})
def after(v):
    m = mod()
    m.c.l{i}.append({keep})
    try:
        m.c.l{i}.{how}
    except ValueError:
        return "refused", list(m.c.l{i})
    return "taken", len(m.c.l{i})
'''


@rule("C09", "every-integer", minimum=8)
def ints(ctx):
    names = list(KINDS)
    for nm, keep, reps, ok in (
        ("int8", 1, (-129, -128, 0, 5, 127, 128, 10 ** 6), lambda v: -128 <= v <= 127),
        ("uint16", 1, (-1, 0, 65535, 65536), lambda v: 0 <= v <= 65535),
        ("ranged", 1, (0, 2, 5, 6, 9, 10, 11), lambda v: 1 <= v <= 5 or v == 10),
        ("typedef of a typedef", 4, (2, 3, 5, 6), lambda v: 3 <= v <= 5),
    ):
        i = names.index(nm)
        for how in ("append(v)", "insert(0, v)", "extend([v])"):
            lab = ctx.lab()
            g = lab.bind(SYM.format(i=i, how=how, keep=keep), schema(only=i))

            def want(r, rep, ok=ok):
                if ok(rep["v"]):
                    return False if isinstance(r, Raised) else same(r, [rep["v"]])
                return r == Raised("ValueError") if isinstance(r, Raised) and r.name else False if not isinstance(r, (Raised, Opaque)) else None

            def want2(r, rep, ok=ok, keep=keep):
                if isinstance(r, Opaque):
                    return None
                if ok(rep["v"]):
                    return same(r, ("taken", 2)) if rep["v"] != keep else None
                return same(r, ("refused", [keep]))

            run(ctx, lab, g, "%s: %s of every integer" % (nm, how), "ints", {"v": "int"}, want, vals(*reps), lab.site(SITE), universal=True)
            run(ctx, lab, g, "%s: %s of every integer, what is left" % (nm, how), "after", {"v": "int"}, want2, vals(*[x for x in reps if x != keep]), lab.site(SITE))


ORD = '''
def order():
    m = mod()
    for v in ("d", "a", "b"):
        m.c.l0.append(v)
    m.c.l0.insert(0, "z")
    m.c.l0.insert(2, "y")
    return list(m.c.l0), [x for x in m.c.l0], m.c.l0[0], m.c.l0[-1], m.c.l0 == ["z", "d", "y", "a", "b"], m.c.l0.get(), len(m.c.l0)
def assigned():
    m = mod()
    m.c.l1 = [3, "1", 2, "3"]
    return list(m.c.l1), 3 in m.c.l1, 4 in m.c.l1, m.c.l1.index(2), m.c.l1.count(1)
def deletion():
    m = mod()
    m.c.l1 = [5, 6, 7, 8, 9]
    del m.c.l1[1]
    a = list(m.c.l1)
    m.c.l1.remove(8)
    b = list(m.c.l1)
    p = m.c.l1.pop()
    q = m.c.l1.pop(0)
    return a, b, p, q, list(m.c.l1)
def refused_deletion():
    m = mod()
    m.c.l1 = [5, 6]
    r = 0
    for f in (lambda: m.c.l1.remove(7), lambda: m.c.l1.pop(5), lambda: m.c.l1.__delitem__(5)):
        try:
            f()
        except (ValueError, IndexError):
            r += 1
    return r, list(m.c.l1)
def cleared():
    m = mod()
    m.c.l1 = [5, 6]
    m.c.l1.clear()
    return list(m.c.l1), len(m.c.l1)
def reversal():
    m = mod()
    m.c.l1 = [5, 6, 7]
    m.c.l1.reverse()
    m.c.l0 = ["a"]
    m.c.l0.reverse()
    return list(m.c.l1), list(m.c.l0)
def replaced():
    m = mod()
    m.c.l1 = [5, 6]
    m.c.l1 = [7]
    m.c.l0 = ["x"]
    m.c.l0 = []
    return list(m.c.l1), list(m.c.l0)
def independent():
    m, n = mod(), mod()
    m.c.l1.append(1)
    n.c.l1.append(2)
    m.c.l2.append(3)
    return list(m.c.l1), list(n.c.l1), list(m.c.l2), list(n.c.l2)
def taken_over():
    m, n = mod(), mod()
    m.c.l1 = [1, 2]
    n.c.l1 = m.c.l1
    n.c.l1.append(3)
    x = [4, 5]
    m.c.l2 = x
    x.append(300)
    return list(m.c.l1), list(n.c.l1), list(m.c.l2)
def into_another_type():
    m = mod()
    m.c.l2 = [300, 5]
    r = False
    try:
        m.c.l1 = m.c.l2
    except ValueError:
        r = True
    return r, list(m.c.l1), list(m.c.l2)
def with_its_container():
    m, n = mod(), mod()
    m.c.l1 = [1, 2]
    m.c.l0 = ["x"]
    n.c = m.c
    return list(n.c.l1), list(n.c.l0), list(n.c.l2)
def reset():
    m = mod()
    m.c.l1 = [1, 2]
    m.c._unset_l1()
    return list(m.c.l1), m.c.l1._changed()
def partial():
    m = mod()
    m.c.l1 = [1, 2]
    r = False
    try:
        m.c.l1 = [3, 300]
    except ValueError:
        r = True
    return r, list(m.c.l1)
'''
OW = {
    "order": (["z", "d", "y", "a", "b"], ["z", "d", "y", "a", "b"], "z", "b", True, ["z", "d", "y", "a", "b"], 5),
    "assigned": ([3, 1, 2], True, False, 2, 1),
    "deletion": ([5, 7, 8, 9], [5, 7, 9], 9, 5, [7]),
    "refused_deletion": (3, [5, 6]),
    "cleared": ([], 0),
    "reversal": ([7, 6, 5], ["a"]),
    "replaced": ([7], []),
    "independent": ([1], [2], [3], []),
    "taken_over": ([1, 2], [1, 2, 3], [4, 5]),
    "into_another_type": (True, [], [300, 5]),
    "with_its_container": ([1, 2], ["x"], []),
    "reset": ([], False),
    "partial": (True, [1, 2]),
}


@rule("C09", "order-and-deletion", minimum=10)
def order(ctx):
    lab = ctx.lab()
    g = lab.bind(ORD, schema())
    for fn, w in OW.items():
        run(ctx, lab, g, fn.replace("_", " "), fn, {}, w, ({},), lab.site(YT + "TypedListType"))


XHD = '''
import pyangbind.lib.xpathhelper as xh
def refs():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    for k in ("a", "b"):
        m.t.add(k)
    r = False
    m.rl.append("a")
    m.rl.append("b")
    try:
        m.rl.append("x")
    except ValueError:
        r = True
    return r, [str(x) for x in m.rl]
def refs_twice():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.t.add("a")
    m.rl.append("a")
    try:
        m.rl.append("a")
    except ValueError:
        pass
    return [str(x) for x in m.rl]
def refs_inserted():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.t.add("a")
    r = 0
    for f in (lambda: m.rl.insert(0, "x"), lambda: m.rl.__setitem__(0, "x"), lambda: m.rl.extend(["x"]), lambda: m._set_rl(["a", "x"])):
        try:
            f()
        except ValueError:
            r += 1
    return r, len(m.rl)
def plain():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    m.pl = ["a", "b", "a"]
    m.pl.remove("a")
    r = False
    try:
        m.pl.remove("zz")
    except ValueError:
        r = True
    return r, list(m.pl)
'''


@rule("C09", "with-a-path-helper", minimum=3)
def helper(ctx):
    lab = ctx.lab()
    g = lab.bind(XHD, M("mod", S("list", "t", S("key", "k"), leaf("k", "string")), S("leaf-list", "rl", typ("leafref", S("path", "/t/k"))), S("leaf-list", "pl", typ("string")), prefix="m"), use_xpathhelper=True)
    for fn, w in {"refs": (True, ["a", "b"]), "refs_twice": ["a"], "refs_inserted": (4, 0), "plain": (True, ["b"])}.items():
        run(ctx, lab, g, fn.replace("_", " "), fn, {}, w, ({},), lab.site(SITE))
