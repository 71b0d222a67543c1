"""C02: restrictions are enforced exactly."""

import re

from .common import *

explain("C02", "Drivers assigning one symbolic datum to a leaf of a restricted type are interpreted abstractly through the code emitted for a schema skeleton and through RestrictedClassType; "
        "the acceptance condition of every path is compared, region by region of the partition its own comparison constants induce, with the value space the restriction statements define.")

INT_RANGES = {
    # spec -> predicate
    "10..20|30": lambda v: 10 <= v <= 20 or v == 30,
    "min..5|7..9": lambda v: v <= 5 or 7 <= v <= 9,
    "3..max": lambda v: v >= 3,
    "-5..-2": lambda v: -5 <= v <= -2,
    "1": lambda v: v == 1,
    "0..0": lambda v: v == 0,
    "-3|2|40..41": lambda v: v in (-3, 2, 40, 41),
    "1 .. 4 | 8": lambda v: 1 <= v <= 4 or v == 8,
}


def points(spec, lo, hi):
    ps = set([lo, hi, lo - 1, hi + 1, 0])
    for n in re.findall(r"-?\d+", spec.replace("..", " ")):
        n = int(n)
        ps |= {n - 1, n, n + 1}
    return sorted(ps)


@rule("C02", "int-range", minimum=6)
def int_range(ctx):
    lab = ctx.lab()
    lv, names = [], []
    for i, spec in enumerate(INT_RANGES):
        n = "r%d" % i
        lv.append(leaf(n, typ("int16", S("range", spec))))
        names.append((n, spec))
    g = lab.bind(setter([n for n, _ in names]), M("mod", *lv))
    for n, spec in names:
        p = INT_RANGES[spec]
        run(ctx, lab, g, "int16 range " + spec, "set_" + n, {"v": "int"}, accepts(lambda x, p=p: -32768 <= x <= 32767 and p(x)), vals(*points(spec, -32768, 32767)), lab.site(YT + "RestrictedClassType.build_length_range_tuples"))


STR = {
    # name -> (type statement, predicate)
    "length 2..4|6": (typ("string", S("length", "2..4|6")), lambda v: 2 <= len(v) <= 4 or len(v) == 6),
    "length 3..max": (typ("string", S("length", "3..max")), lambda v: len(v) >= 3),
    "length min..2": (typ("string", S("length", "min..2")), lambda v: len(v) <= 2),
    "length 1": (typ("string", S("length", "1")), lambda v: len(v) == 1),
    "length 0|3": (typ("string", S("length", "0|3")), lambda v: len(v) in (0, 3)),
    "pattern a|b": (typ("string", S("pattern", "a|b")), lambda v: v in ("a", "b")),
    "pattern ab?": (typ("string", S("pattern", "ab?")), lambda v: v in ("a", "ab")),
    "pattern ^a$": (typ("string", S("pattern", "^a$")), lambda v: v == "a"),
    "pattern a$": (typ("string", S("pattern", "a$")), lambda v: v == "a"),
    "pattern a$b": (typ("string", S("pattern", "a$b")), lambda v: v == "a$b"),
    "two patterns": (typ("string", S("pattern", "[a-c]+"), S("pattern", "[b-d]+")), lambda v: re.fullmatch("[bc]+", v) is not None),
    "pattern and length": (typ("string", S("pattern", "a+"), S("length", "2..3")), lambda v: v in ("aa", "aaa")),
    "length and pattern": (typ("string", S("length", "2..3"), S("pattern", "[ab]+")), lambda v: re.fullmatch("[ab]{2,3}", v) is not None),
}
WORDS = ["", "a", "b", "c", "d", "ab", "ba", "bc", "cd", "aa", "aaa", "aaaa", "abb", "a$b", "a$", "a|b", "xa", "ax", "bax", "aab", "a\n", "aaaaa", "aaaaaa", "aaaaaaa", "abcdef", "bcb", "bd"]


@rule("C02", "string-restrictions", minimum=10)
def string_restrictions(ctx):
    lab = ctx.lab()
    names = ["s%d" % i for i in range(len(STR))]
    g = lab.bind(setter(names), M("mod", *[leaf(n, t) for n, (t, _) in zip(names, STR.values())]))
    for n, (what, (t, p)) in zip(names, STR.items()):
        run(ctx, lab, g, what, "set_" + n, {"v": "str"}, accepts(p), vals(*WORDS), lab.site(YT + "RestrictedClassType"))


@rule("C02", "enumeration", minimum=2)
def enumeration(ctx):
    lab = ctx.lab()
    e = typ("enumeration", S("enum", "one"), S("enum", "two", S("value", "7")), S("enum", "thr-ee"))
    g = lab.bind(setter(["e", "f"]), M("mod", S("typedef", "te", typ("enumeration", S("enum", "A"), S("enum", "B"))), leaf("e", e), leaf("f", "te")))
    site = lab.site(YT + "RestrictedClassType.in_dictionary_check")
    run(ctx, lab, g, "enumeration", "set_e", {"v": "str"}, accepts(lambda v: v in ("one", "two", "thr-ee")), vals("one", "two", "thr-ee", "three", "", "ONE", "one ", "7", "0", "value", "on"), site)
    run(ctx, lab, g, "typedef of enumeration", "set_f", {"v": "str"}, accepts(lambda v: v in ("A", "B")), vals("A", "B", "AB", "a", "", "one"), site)


@rule("C02", "enumerations-of-other-sizes", minimum=3)
def enumeration_sizes(ctx):
    lab = ctx.lab()
    sets = [["ABC"], ["a b", "c"], ["10", "1", "true", "-"], ["x" * 40], [chr(65 + i) + "z" for i in range(20)], ["@a", "@", "b@", "c"]]
    g = lab.bind(setter(["e%d" % i for i in range(len(sets))]), M("mod", *[leaf("e%d" % i, typ("enumeration", *[S("enum", n) for n in ns])) for i, ns in enumerate(sets)]))
    pts = vals("ABC", "AB", "BC", "A", "", "a b", "a", "b", "c", "a b c", " ", "10", "1", "0", "true", "True", "-", "x" * 40, "x" * 39, "x", "Az", "Tz", "z", "Uz", "z B", "Az Bz", "{}", "'", ",", "value", "{'value': 0}", "@a", "@", "b@", "@c")
    for i, ns in enumerate(sets):
        run(ctx, lab, g, "%d name(s)%s" % (len(ns), " with a blank" if " " in "".join(ns) else ""), "set_e%d" % i, {"v": "str"}, accepts(lambda v, ns=ns: v in ns), pts, lab.site(YT + "RestrictedClassType.in_dictionary_check"))


CHAINS = [
    # (name, typedefs, leaf type, exact type, predicate, points)
    ("int32 typedef then range", [("t1", typ("int32", S("range", "1..100")))], typ("t1", S("range", "10..50")), "int", lambda v: 10 <= v <= 50, [0, 1, 9, 10, 11, 49, 50, 51, 100, 101, -1]),
    ("range two typedefs deep", [("t1", typ("int32", S("range", "1..30"))), ("t2", typ("t1", S("range", "5..25")))], typ("t2", S("range", "min..22")), "int", lambda v: 5 <= v <= 22, [0, 1, 4, 5, 6, 21, 22, 23, 25, 26, 30, 31, 2147483647, 2147483648, -2147483649]),
    ("typedef used unrestricted", [("t1", typ("uint8", S("range", "3..7")))], typ("t1"), "int", lambda v: 3 <= v <= 7, [-1, 0, 2, 3, 7, 8, 255, 256]),
    ("base range under typedef", [("t1", typ("uint8"))], typ("t1", S("range", "1..max")), "int", lambda v: 1 <= v <= 255, [-1, 0, 1, 2, 255, 256, 70000]),
    ("string typedef pattern then length", [("t1", typ("string", S("pattern", "[ab]*")))], typ("t1", S("length", "2")), "str", lambda v: re.fullmatch("[ab]{2}", v) is not None, WORDS),
    ("string typedef length then pattern", [("t1", typ("string", S("length", "1..3")))], typ("t1", S("pattern", "a*")), "str", lambda v: v in ("a", "aa", "aaa"), WORDS),
    ("pattern and length over length", [("t1", typ("string", S("length", "1..10")))], typ("t1", S("length", "2..3"), S("pattern", "a+")), "str", lambda v: v in ("aa", "aaa"), WORDS),
    ("length over pattern and length", [("t1", typ("string", S("length", "1..4"), S("pattern", "[ab]*")))], typ("t1", S("length", "2..max")), "str", lambda v: re.fullmatch("[ab]{2,4}", v) is not None, WORDS),
    ("two patterns over a length", [("t1", typ("string", S("length", "1..3")))], typ("t1", S("pattern", "[a-c]*"), S("pattern", "[b-d]*")), "str", lambda v: re.fullmatch("[bc]{1,3}", v) is not None, WORDS),
    ("three deep", [("t1", typ("string", S("length", "1..3"))), ("t2", typ("t1", S("pattern", "[a-c]*"))), ("t3", typ("t2", S("length", "2..3"), S("pattern", "[b-d]*")))], typ("t3"), "str", lambda v: re.fullmatch("[bc]{2,3}", v) is not None, WORDS),
    ("pattern over pattern", [("t1", typ("string", S("pattern", "[a-c]*")))], typ("t1", S("pattern", "[b-d]*")), "str", lambda v: re.fullmatch("[bc]*", v) is not None, WORDS),
]


@rule("C02", "derived-types", minimum=6)
def derived(ctx):
    lab = ctx.lab()
    for what, tds, lt, kind, p, pts in CHAINS:
        try:
            g = lab.bind(setter(["x"]), M("mod", *([S("typedef", n, t) for n, t in tds] + [leaf("x", lt)])))
        except Undecided as e:
            ctx.und(what, str(e))
            continue
        run(ctx, lab, g, what, "set_x", {"v": kind}, accepts(p), vals(*pts), lab.site(YT + "RestrictedClassType"))


@rule("C02", "leaf-list-and-key", minimum=3)
def containers(ctx):
    """The same restrictions hold where the value enters a leaf-list or is a list key."""
    lab = ctx.lab()
    D = '''
def app(v):
    m = mod()
    m.ll.append(v)
    return m.ll[0]
def key(v):
    m = mod()
    m.li.add(v)
    return m.li[v].k
def whole(v):
    m = mod()
    m.ll = [v]
    return m.ll[0]
def un(v):
    m = mod()
    m.u = v
    return m.u
'''
    t = typ("int32", S("range", "1..5|9"))
    g = lab.bind(D, M("mod", S("leaf-list", "ll", t), S("list", "li", S("key", "k"), leaf("k", t)), leaf("u", typ("union", t, typ("enumeration", S("enum", "auto"))))))
    ok = lambda v: 1 <= v <= 5 or v == 9  # noqa: E731
    pts = vals(-1, 0, 1, 2, 5, 6, 8, 9, 10)
    site = lab.site(YT + "RestrictedClassType")
    run(ctx, lab, g, "leaf-list append", "app", {"v": "int"}, accepts(ok), pts, site)
    run(ctx, lab, g, "leaf-list assignment", "whole", {"v": "int"}, accepts(ok), pts, site)
    run(ctx, lab, g, "list key", "key", {"v": "int"}, accepts(ok, exc=("KeyError", "ValueError")), pts, site)
    run(ctx, lab, g, "union member", "un", {"v": "int"}, accepts(ok, exc=("TypeError", "ValueError")), pts, site)


# type -> what is stored for each value, None if it has to be refused
OTHER = {
    "range of int8": (typ("int8", S("range", "1..5")), {"False": None, "True": "1", "''": None, "None": None, "[]": None, "0": None, "'3'": "3", "'0'": None, "'x'": None, "3.0": "3", "{}": None, "b''": None}),
    "range around 0": (typ("int8", S("range", "-1..5")), {"False": "0", "0": "0", "''": None, "None": None, "[]": None, "'0'": "0", "'-1'": "-1", "'-2'": None}),
    "plain int16": ("int16", {"''": None, "None": None, "[]": None, "0": "0", "'x'": None, "'5'": "5", "'40000'": None}),
    "range over a range": (typ("ti", S("range", "5..10")), {"False": None, "''": None, "None": None, "0": None, "3": None, "7": "7", "'7'": "7", "'50'": None}),
    "uint64": (typ("uint64", S("range", "9007199254740993..18446744073709551614")), {"9007199254740992": None, "9007199254740993": "9007199254740993", "18446744073709551614": "18446744073709551614", "18446744073709551615": None, "'9007199254740993'": "9007199254740993", "'9007199254740992'": None}),
    "length": (typ("string", S("length", "2..3")), {"15": "15", "1": None, "1234": None, "0": None, "''": None, "'ab'": "ab"}),
    "length over a length": (typ("ts", S("length", "2..3")), {"15": "15", "1": None, "1234": None, "'abcd'": None, "'ab'": "ab"}),
    "pattern": (typ("string", S("pattern", "[0-9]+")), {"15": "15", "''": None, "'x'": None, "-1": None}),
    "enumeration": (typ("enumeration", S("enum", "0"), S("enum", "False x")), {"0": "0", "''": None, "None": None, "[]": None, "False": None}),
    "decimal range": (typ("decimal64", S("fraction-digits", "2"), S("range", "1.5..2.5 | 4")), {"'1.5'": "1.5", "'1.49'": None, "'2.5'": "2.5", "'2.51'": None, "4": "4", "'4'": "4", "3": None, "5": None, "0": None, "''": None, "None": None, "'x'": None, "False": None}),
    "length of binary": (typ("binary", S("length", "1..2")), {"'YQ=='": "a", "'YWI='": "ab", "'YWJj'": None, "''": None, "b'ab'": "ab", "b'abc'": None, "b''": None, "5": None, "None": None}),
    "length of derived binary": (typ("tb", S("length", "2..3")), {"'YQ=='": None, "'YWI='": "ab", "'YWJj'": "abc", "'YWJjZA=='": None}),
    "min and max": (typ("uint8", S("range", "min..3 | 250..max")), {"0": "0", "3": "3", "4": None, "249": None, "250": "250", "255": "255", "256": None, "-1": None}),
    "single values": (typ("int32", S("range", "-7 | 0 | 7")), {"-7": "-7", "0": "0", "7": "7", "1": None, "-6": None, "'-7'": "-7", "''": None, "False": "0"}),
    "negative range": (typ("int32", S("range", "-10..-5")), {"-10": "-10", "-5": "-5", "-4": None, "-11": None, "0": None, "5": None, "False": None}),
}


@rule("C02", "values-of-every-kind", minimum=60)
def other(ctx):
    lab = ctx.lab()
    heads = [S("typedef", "ti", typ("int32", S("range", "1..100"))), S("typedef", "ts", typ("string", S("length", "1..10"))), S("typedef", "tb", typ("binary", S("length", "1..3")))]
    for i, (what, (t, cs)) in enumerate(OTHER.items()):
        src = "".join("def f%d():\n    m = mod()\n    try:\n        m.x = %s\n    except ValueError:\n        return 'refused', m.x._changed(), str(m.x)\n    return 'taken', m.x._changed(), str(m.x)\ndef un():\n    return str(mod().x)\n" % (j, v) for j, v in enumerate(cs))
        g = lab.bind(src, M("mod", *(heads + [leaf("x", t)])))
        for j, (v, w) in enumerate(cs.items()):
            run(ctx, lab, g, "%s given %s" % (what, v), "f%d" % j, {}, ("refused", False, ANY) if w is None else ("taken", True, w), ({},), lab.site(YT + "RestrictedClassType"))
