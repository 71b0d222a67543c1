"""C18: a union takes the first member type that accepts the value."""

from .common import *

explain("C18", "Unions of members of every kind, written directly, through typedefs, typedefs of typedefs, across modules and nested, are given symbolic integers and texts and values of other kinds; the driver is interpreted abstractly through the emitted code and the library, and the class and text of what is stored is compared with the first member, in schema order, whose value space holds the value.")

SITE = YT + "YANGDynClass"
HEADS = [
    S("identity", "idb"),
    S("identity", "idd", S("base", "idb")),
    S("typedef", "small", typ("int8", S("range", "1..5"))),
    S("typedef", "zs", typ("string", S("pattern", "z+"))),
    S("typedef", "tu", typ("union", typ("small"), typ("zs"))),
    S("typedef", "tu2", typ("union", typ("tu"), typ("enumeration", S("enum", "E")))),
    S("typedef", "tu3", typ("tu2")),
    S("typedef", "te", typ("enumeration", S("enum", "E"), S("enum", "F"))),
    S("typedef", "tid", typ("identityref", S("base", "idb"))),
    S("typedef", "tuu", typ("union", typ("union", typ("small"), typ("te")), typ("uint16"))),
]
BITS = typ("bits", S("bit", "p", S("position", "0")), S("bit", "q", S("position", "1")))
DEC = typ("decimal64", S("fraction-digits", "2"))
ENUM = typ("enumeration", S("enum", "E"), S("enum", "5"))
# union -> (members, {value: (kind of object stored, its text) or None})
U = {
    "integer, string": ([typ("int8"), typ("string")], {"5": ("int", "5"), "'5'": ("int", "5"), "'x'": ("str", "x"), "300": ("str", "300"), "'300'": ("str", "300"), "''": ("str", ""), "-128": ("int", "-128"), "'128'": ("str", "128")}),
    "string, integer": ([typ("string"), typ("int8")], {"5": ("str", "5"), "'5'": ("str", "5"), "'x'": ("str", "x")}),
    "two ranges": ([typ("int8", S("range", "1..5")), typ("int32", S("range", "10..20"))], {"3": ("int", "3"), "15": ("int", "15"), "'15'": ("int", "15"), "7": None, "0": None, "'x'": None, "''": None, "None": None, "[]": None, "300": None}),
    "range, enumeration": ([typ("uint8", S("range", "1..4")), ENUM], {"3": ("int", "3"), "5": ("str", "5"), "'5'": ("str", "5"), "'E'": ("str", "E"), "6": None, "'e'": None}),
    "enumeration, integer": ([ENUM, typ("uint8")], {"5": ("str", "5"), "6": ("int", "6"), "'E'": ("str", "E"), "'x'": None, "300": None}),
    "two patterns": ([typ("string", S("pattern", "a+")), typ("string", S("pattern", "[0-9]+"))], {"'aa'": ("str", "aa"), "'12'": ("str", "12"), "12": ("str", "12"), "'b'": None, "''": None}),
    "boolean, integer": ([typ("boolean"), typ("int16")], {"True": ("bool", "True"), "'true'": ("bool", "True"), "'false'": ("bool", "False"), "5": ("int", "5"), "'x'": None, "40000": None}),
    "integer, boolean": ([typ("int16"), typ("boolean")], {"5": ("int", "5"), "'true'": ("bool", "True"), "'false'": ("bool", "False"), "'x'": None}),
    "boolean, string": ([typ("boolean"), typ("string")], {"'true'": ("bool", "True"), "'maybe'": ("str", "maybe")}),
    "decimal64, enumeration": ([DEC, ENUM], {"'1.5'": ("dec", "1.50"), "'E'": ("str", "E"), "2": ("dec", "2.00"), "'x'": None, "None": None}),
    "enumeration, decimal64": ([ENUM, DEC], {"'5'": ("str", "5"), "'6'": ("dec", "6.00"), "'x'": None}),
    "decimal64, string": ([DEC, typ("string")], {"'1.5'": ("dec", "1.50"), "'x'": ("str", "x"), "'1.x'": ("str", "1.x")}),
    "binary, integer": ([typ("binary", S("length", "3")), typ("uint8")], {"'YWJj'": ("bytes", "abc"), "5": ("int", "5"), "'YQ=='": None, "300": None}),
    "bits, integer": ([BITS, typ("uint8")], {"'q p'": ("bits", "p q"), "'q'": ("bits", "q"), "5": ("int", "5"), "'5'": ("int", "5"), "'x'": None, "300": None}),
    "integer, bits": ([typ("uint8"), BITS], {"'q p'": ("bits", "p q"), "5": ("int", "5"), "'x'": None}),
    "bits, string": ([BITS, typ("string")], {"'q p'": ("bits", "p q"), "'x'": ("str", "x"), "'p x'": ("str", "p x")}),
    "identityref, integer": ([typ("identityref", S("base", "idb")), typ("uint8")], {"'idd'": ("str", "idd"), "'m:idd'": ("str", "m:idd"), "5": ("int", "5"), "'idb'": None, "300": None}),
    "integer, identityref": ([typ("uint8"), typ("identityref", S("base", "idb"))], {"'idd'": ("str", "idd"), "5": ("int", "5"), "'idb'": None}),
    "leafref, integer": ([typ("leafref", S("path", "/z")), typ("uint8")], {"'a'": ("str", "a")}),
    "integer, leafref": ([typ("uint8"), typ("leafref", S("path", "/z"))], {"'a'": ("str", "a"), "5": ("int", "5")}),
    "empty, integer": ([typ("empty"), typ("uint8")], {"True": ("bool", "True"), "5": ("int", "5"), "'x'": None}),
    "of typedefs": ([typ("small"), typ("zs")], {"3": ("int", "3"), "'zz'": ("str", "zz"), "7": None, "'a'": None, "''": None, "0": None}),
    "typedef": (["tu"], {"3": ("int", "3"), "'zz'": ("str", "zz"), "7": None, "'a'": None, "False": None}),
    "typedef of unions": (["tu2"], {"3": ("int", "3"), "'zz'": ("str", "zz"), "'E'": ("str", "E"), "7": None, "'a'": None}),
    "typedef of a typedef": (["tu3"], {"3": ("int", "3"), "'zz'": ("str", "zz"), "'E'": ("str", "E"), "7": None, "'a'": None}),
    "typedef of nested unions": (["tuu"], {"3": ("int", "3"), "'F'": ("str", "F"), "7": ("int", "7"), "65536": None, "'a'": None, "0": ("int", "0")}),
    "typedefs among members": ([typ("tu"), typ("te"), typ("uint16"), typ("tid")], {"3": ("int", "3"), "'zz'": ("str", "zz"), "'F'": ("str", "F"), "700": ("int", "700"), "'idd'": ("str", "idd"), "70000": None, "'a'": None}),
    "nested": ([typ("union", typ("uint8", S("range", "1..3")), typ("enumeration", S("enum", "A"))), typ("union", typ("uint8"), typ("enumeration", S("enum", "B"))), typ("boolean")], {"2": ("int", "2"), "7": ("int", "7"), "'A'": ("str", "A"), "'B'": ("str", "B"), "'true'": ("bool", "True"), "300": None, "'C'": None}),
    "nested three deep": ([typ("union", typ("union", typ("int8", S("range", "1..2")), typ("zs")), typ("enumeration", S("enum", "zz"), S("enum", "B"))), typ("tid")], {"2": ("int", "2"), "'zz'": ("str", "zz"), "'B'": ("str", "B"), "'idd'": ("str", "idd"), "3": None}),
    "many": ([typ("int8", S("range", "1..2")), typ("int16", S("range", "10")), typ("te"), typ("tid"), BITS, typ("boolean"), DEC], {"1": ("int", "1"), "10": ("int", "10"), "'E'": ("str", "E"), "'idd'": ("str", "idd"), "'p'": ("bits", "p"), "'true'": ("bool", "True"), "'2.5'": ("dec", "2.50"), "3": ("dec", "3.00"), "'x'": None}),
}
D = '''
def kind(x):
    if isinstance(x, int):
        return "int"
    if isinstance(x, str):
        return "str"
    if isinstance(x, bytes):
        return "bytes"
    if isinstance(x, Decimal):
        return "dec"
    if isinstance(x, set):
        return "bits"
    return "?"
'''
D1 = '''
def leaf_{j}():
    m = mod()
    try:
        m.u = {v}
    except ValueError:
        return "refused", m.u._changed(), False
    return kind(m.u), str(m.u), m.u._changed()
def again_{j}():
    m = mod()
    m.u = {keep}
    try:
        m.u = {v}
    except ValueError:
        return "refused", str(m.u)
    return kind(m.u), str(m.u)
def setter_{j}():
    m = mod()
    try:
        m.c._set_u({v})
    except ValueError:
        return "refused", m.c._changed()
    return kind(m.c.u), str(m.c.u)
'''
D2 = '''
def in_list_{j}():
    m = mod()
    try:
        m.l.append({v})
    except ValueError:
        return "refused", len(m.l)
    return kind(m.l[0]), str(m.l[0])
'''
BIND = "from decimal import Decimal\n"


def kd(w):
    return "int" if w[0] == "bool" else w[0]


@rule("C18", "first-member-that-accepts", minimum=300, limit=300)
def first(ctx):
    lab = ctx.lab()
    for what, (members, cases) in U.items():
        t = typ(members[0]) if isinstance(members[0], str) else typ("union", *members)
        keep = next(v for v, w in cases.items() if w)
        src = BIND + D
        lists = "string" not in what and "leafref" not in what and "empty" not in what
        for j, v in enumerate(cases):
            src += D1.format(j=j, v=v, keep=keep) + (D2.format(j=j, v=v) if lists else "")
        body = [leaf("u", t), S("container", "c", leaf("u", t))] + ([S("leaf-list", "l", t)] if lists else []) + [leaf("z", "string")]
        g = lab.bind(src, M("mod", *(HEADS + body), prefix="m"))
        site = lab.site(SITE)
        for j, (v, w) in enumerate(cases.items()):
            i = "%s: %s" % (what, v)
            run(ctx, lab, g, i, "leaf_%d" % j, {}, (kd(w), w[1], True) if w else ("refused", False, False), ({},), site)
            run(ctx, lab, g, i + " over another value", "again_%d" % j, {}, (kd(w), w[1]) if w else ("refused", cases[keep][1]), ({},), site)
            run(ctx, lab, g, i + " by the private setter", "setter_%d" % j, {}, (kd(w), w[1]) if w else ("refused", False), ({},), site)
            if lists:
                run(ctx, lab, g, i + " in a leaf-list", "in_list_%d" % j, {}, (kd(w), w[1]) if w else ("refused", 0), ({},), site)


SYM = '''
def t(v):
    m = mod()
    try:
        m.u = v
    except ValueError:
        return "refused", None
    return kind(m.u), m.u
def l(v):
    m = mod()
    try:
        m.l.append(v)
    except ValueError:
        return "refused", None
    return kind(m.l[0]), m.l[0]
def key(v):
    m = mod()
    try:
        m.k.add(v)
    except (ValueError, KeyError):
        return "refused", len(m.k)
    return "taken", len(m.k)
'''


@rule("C18", "every-value", minimum=8)
def every(ctx):
    def of(p):
        def want(r, rep):
            if isinstance(r, (Raised, Opaque)) or not isinstance(r, tuple):
                return False if isinstance(r, Raised) and r.name else None
            w = p(rep["v"])
            return same(r[0], "refused" if w is None else w[0]) if w is None or isinstance(r[1], Opaque) or w[1] is ANY else same(r, w)

        return want

    ints = (-40000, -129, -128, -1, 0, 1, 2, 5, 6, 9, 10, 11, 20, 21, 127, 128, 255, 256, 65535, 65536)
    for what, members, kind, p, pts in (
        ("two ranges", [typ("int8", S("range", "1..5")), typ("int32", S("range", "10..20"))], "int", lambda v: ("int", v) if 1 <= v <= 5 or 10 <= v <= 20 else None, ints),
        ("typedef", ["tu"], "int", lambda v: ("int", v) if 1 <= v <= 5 else None, ints),
        ("typedefs of typedefs", ["tuu"], "int", lambda v: ("int", v) if 0 <= v <= 65535 else None, ints),
        ("typedefs among members", [typ("tu"), typ("te"), typ("uint16")], "int", lambda v: ("int", v) if 0 <= v <= 65535 else None, ints),
        ("two patterns", [typ("string", S("pattern", "a+")), typ("string", S("pattern", "[bc]+"))], "str", lambda v: ("str", v) if v and (not v.strip("a") or not v.strip("bc")) else None, ("", "a", "aa", "b", "bc", "ab", "x", "a\n")),
        ("enumeration, pattern", [ENUM, typ("string", S("pattern", "z+"))], "str", lambda v: ("str", v) if v in ("E", "5") or v and not v.strip("z") else None, ("", "E", "5", "zz", "e", "x")),
    ):
        lab = ctx.lab()
        t = typ(members[0]) if isinstance(members[0], str) else typ("union", *members)
        g = lab.bind(BIND + D + SYM, M("mod", *(HEADS + [leaf("u", t), S("leaf-list", "l", t), S("list", "k", S("key", "u"), leaf("u", t))]), prefix="m"))
        site = lab.site(SITE)
        run(ctx, lab, g, what, "t", {"v": kind}, of(p), vals(*pts), site)
        run(ctx, lab, g, what + ", in a leaf-list", "l", {"v": kind}, of(p), vals(*pts), site)
        run(ctx, lab, g, what + ", as a key", "key", {"v": kind}, lambda r, rep, p=p: None if isinstance(r, Opaque) else same(r, ("refused", 0) if p(rep["v"]) is None else ("taken", 1)), vals(*pts), site)


XSRC = '''
def t(v: str):
    m = mod()
    m.r = "other"
    return m.r, m.u.q
'''


@rule("C18", "members-from-another-module", minimum=4)
def modules(ctx):
    lab = ctx.lab()
    other = M("types", S("typedef", "u", typ("union", typ("n"), typ("enumeration", S("enum", "X")))), S("typedef", "n", typ("uint8", S("range", "1..3"))), prefix="ty")
    g = lab.bind(BIND + D + "".join("def f%d():\n    m = mod()\n    try:\n        m.%s = %s\n    except ValueError:\n        return 'refused', ''\n    return kind(m.%s), str(m.%s)\n" % (i, l, v, l, l) for i, (l, v, _) in enumerate(XC)), other, M("mod", S("import", "types", S("prefix", "t")), S("typedef", "n", typ("string", S("pattern", "n+"))), leaf("a", typ("union", typ("n"), typ("t:n"))), leaf("b", typ("union", typ("t:n"), typ("n"))), leaf("c", "t:u"), leaf("d", typ("union", typ("t:u"), typ("n"))), prefix="m"), only=["mod"])
    for i, (l, v, w) in enumerate(XC):
        run(ctx, lab, g, "%s: %s" % (l, v), "f%d" % i, {}, w or ("refused", ""), ({},), lab.site(SITE))


XC = [("a", "'nn'", ("str", "nn")), ("a", "2", ("int", "2")), ("a", "5", None), ("b", "'nn'", ("str", "nn")), ("b", "2", ("int", "2")), ("b", "'x'", None), ("c", "2", ("int", "2")), ("c", "'X'", ("str", "X")), ("c", "'nn'", None), ("c", "5", None), ("d", "3", ("int", "3")), ("d", "'X'", ("str", "X")), ("d", "'n'", ("str", "n")), ("d", "4", None)]


FAIL = '''
from pyangbind.lib.xpathhelper import XPathError
import decimal
class Odd(Exception):
    pass
'''
FAIL1 = '''
class Bad{i}(object):
    def __init__(self, *args, **kwargs):
        if len(args):
            raise {e}("no")
def leaf_{i}():
    x = YANGDynClass("q", base=[Bad{i}, str], yang_name="u", is_leaf=True)
    return kind(x), str(x), x._changed()
def later_{i}():
    x = YANGDynClass(7, base=[Bad{i}, YANGBool, Bad{i}, RestrictedClassType(base_type=int, restriction_dict={{"range": ["5..9"]}}), str], yang_name="u", is_leaf=True)
    return kind(x), str(x)
def none_{i}():
    try:
        YANGDynClass("q", base=[Bad{i}, YANGBool], yang_name="u", is_leaf=True)
    except (ValueError, TypeError):
        return "refused"
    return "taken"
def list_{i}():
    x = YANGDynClass(base=TypedListType(allowed_type=[Bad{i}, YANGBool, int]), yang_name="u", is_leaf=False)
    x.append("12")
    return kind(x[0]), str(x[0])
def listnone_{i}():
    x = YANGDynClass(base=TypedListType(allowed_type=[Bad{i}, YANGBool]), yang_name="u", is_leaf=False)
    try:
        x.append("12")
    except ValueError:
        return "refused", len(x)
    return "taken", len(x)
'''
ERRORS = ["ValueError", "TypeError", "KeyError", "AttributeError", "IndexError", "ArithmeticError", "OverflowError", "decimal.InvalidOperation", "UnicodeDecodeError", "XPathError", "RuntimeError", "LookupError", "NotImplementedError", "AssertionError", "Odd"]
ERRORS.remove("UnicodeDecodeError")  # takes other arguments


@rule("C18", "members-that-fail-in-any-way", minimum=50)
def fails(ctx):
    lab = ctx.lab()
    g = lab.bind(BIND + D + FAIL + "".join(FAIL1.format(i=i, e=e) for i, e in enumerate(ERRORS)), M("mod", leaf("a", "string"), prefix="m"))
    for i, e in enumerate(ERRORS):
        for fn, w in (("leaf", ("str", "q", True)), ("later", ("int", "7")), ("none", "refused"), ("list", ("int", "12")), ("listnone", ("refused", 0))):
            run(ctx, lab, g, "%s raised: %s" % (e, fn), "%s_%d" % (fn, i), {}, w, ({},), lab.site(SITE if "list" not in fn else YT + "TypedListType.TypedList._convert"))
