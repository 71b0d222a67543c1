"""C28: bits hold only defined names and print in the order of their positions."""

from itertools import permutations

from .common import *
from .c10 import HEAD as PRELUDE

explain("C28", "Definitions (positions given, left out and mixed, rising, falling and with gaps, names of every form, derived types) are generated abstractly; every operation that changes a set of bits is run from every state with defined, undefined and mixed operands of every kind of collection, and with symbolic names, against sets computed by the rule: what is held afterwards, what is refused with ValueError (leaving what was held), what str() and the documents say, and what is told to the parents.")

# name: [(bit, position or None)]
DEFS = {
    "given rising": [("a", 0), ("b", 1), ("c", 2)],
    "given falling": [("a", 9), ("b", 5), ("c", 0)],
    "left out": [("z", None), ("m", None), ("a", None), ("k", None)],
    "with gaps": [("a", 100), ("b", 7), ("c", 4294967295)],
    "mixed": [("a", 5), ("b", None), ("c", 2), ("d", None)],
    "mixed, left out first": [("a", None), ("b", 9), ("c", None), ("d", 3), ("e", None)],
    "zero in between": [("a", 3), ("b", 0), ("c", None)],
    "two digits": [("a", 10), ("b", 9), ("c", 2), ("d", None)],
    "only one": [("a", None)],
    "only one, given": [("a", 4)],
    "names": [("b-2", None), ("B.1", None), ("_x", None), ("a", None), ("10", None)],
    "names alike": [("ab", 1), ("a", 2), ("b", 0)],
}


def bits(d):
    return typ("bits", *[S("bit", n, *([S("position", str(p))] if p is not None else [])) for n, p in d])


def positions(d):
    out = {}
    for n, p in d:
        out[n] = p if p is not None else (max(out.values()) + 1 if out else 0)
    return out


def text(d, held):
    pos = positions(d)
    return " ".join(sorted(held, key=lambda n: pos[n]))


@rule("C28", "text-form", 60, limit=250)
def order(ctx):
    """str() and the documents list the bits that are held once each, by position, for every way the positions are defined."""
    lab = ctx.lab()
    for dn, d in DEFS.items():
        names = [n for n, p in d]
        T = bits(d)
        kids = [S("typedef", "t1", T), S("typedef", "t2", typ("t1")), leaf("lf", T), leaf("td", "t1"), leaf("tdd", "t2"), leaf("un", typ("union", typ("int8"), T)), S("leaf-list", "ll", T), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", T))]
        sets = [names, names[::-1], sorted(names), names[1:], names[-1:], names + names[:1], names[::2] + names[1::2]] + ([list(x) for x in permutations(names)] if len(names) == 3 else [])
        out, cases, seen = [PRELUDE], [], set()
        for s in sets:
            if tuple(s) in seen or not s:
                continue
            seen.add(tuple(s))
            j = len(cases)
            v = " ".join(s)
            out.append("def f_%d():\n    m = mod()\n    m.lf = %r\n    m.td = %r\n    m.tdd = %r\n    m.ll.append(%r)\n    m.l.add('x').v = %r\n    d = pbj.dumps(m, mode='ietf')\n    x = mod()\n    for b in %r:\n        x.lf.add(b)\n    return [str(m.lf), str(m.td), str(m.tdd), str(m.ll[0]), str(m.l['x'].v), d['mod:lf'], d['mod:td'], d['mod:ll'][0], str(x.lf)]\n" % (j, v, v, v, v, v, s))
            out.append("def u_%d():\n    m = mod()\n    m.un = %r\n    return str(m.un)\n" % (j, v))
            cases.append((v, [text(d, set(s))] * 9))
        g = lab.bind("\n".join(out), M("mod", *kids))
        for j, (v, w) in enumerate(cases):
            run(ctx, lab, g, "%s: %s" % (dn, v), "f_%d" % j, {}, w, site=YT + "YANGBitsType")
            if not v.isdigit():
                run(ctx, lab, g, "%s in a union: %s" % (dn, v), "u_%d" % j, {}, w[0], site=YT + "YANGBitsType")


D3 = [("a", 2), ("b", 0), ("c", 1)]
# how to write a collection of names
FORMS = {"list": lambda x: repr(list(x)), "set": lambda x: "set(%r)" % (list(x),), "tuple": lambda x: repr(tuple(x))}
# op: (code on l with %s, result from (held, operand) or None if refused, adds names?)
BULK = {
    "update": ("l.update(%s)", lambda h, o: h | o, True),
    "|=": ("l |= %s", lambda h, o: h | o, True),
    "difference_update": ("l.difference_update(%s)", lambda h, o: h - o, False),
    "-=": ("l -= %s", lambda h, o: h - o, False),
    "intersection_update": ("l.intersection_update(%s)", lambda h, o: h & o, False),
    "&=": ("l &= %s", lambda h, o: h & o, False),
    "symmetric_difference_update": ("l.symmetric_difference_update(%s)", lambda h, o: h ^ o, True),
    "^=": ("l ^= %s", lambda h, o: h ^ o, True),
}
STATES = [(), ("a",), ("b", "c"), ("a", "b", "c")]
GIVEN = [(), ("b",), ("a", "c"), ("a", "b", "c"), ("x",), ("a", "x"), ("x", "a"), ("A",), ("",), ("a b",), (1,), (None,)]
HOLDERS = {"leaf": "m.c.lf", "entry": "m.l['e'].v"}
TRY = '''
def start(names):
    m = mod()
    m.l.add('e')
    m.c.lf = ' '.join(names)
    m.l['e'].v = ' '.join(names)
    return m
def state(m, l):
    return sorted([x for x in l]), str(l)
'''


def kids3():
    return [S("container", "c", leaf("lf", bits(D3))), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", bits(D3)))]


def refusal(held, soft=False):
    """Refused with ValueError and held as before; soft: or ignored."""

    def want(r, rep):
        if isinstance(r, Raised):
            return False
        if not isinstance(r, tuple) or len(r) != 2:
            return None
        ok = same(r[1], (sorted(held), text(D3, held)))
        if ok is not True:
            return ok
        if soft:
            return r[0] in ("ValueError", "KeyError", "none")
        return same(r[0], "ValueError")

    return want


DRV = '''
def f_{j}():
    m = start({held!r})
    l = {holder}
    r = 'none'
    try:
        {code}
    except ValueError:
        r = 'ValueError'
    except KeyError:
        r = 'KeyError'
    return r, state(m, {holder})
'''


@rule("C28", "operations-with-several", 100, limit=250)
def bulk(ctx):
    """The operations with collections of names, from every state, with defined, undefined and mixed ones."""
    lab = ctx.lab()
    out, cases = [TRY], []
    for op, (code, res, adds) in BULK.items():
        for hi, held in enumerate(STATES):
            for gi, o in enumerate(GIVEN):
                bad = adds and any(x not in ("a", "b", "c") for x in o)
                form = ("list", "set", "tuple")[(hi + gi) % 3] if "=" not in op else "set"
                holder = HOLDERS[("leaf", "entry")[(hi + gi // 2) % 2]]
                j = len(cases)
                out.append(DRV.format(j=j, held=held, holder=holder, code=code % FORMS[form](o)))
                h = set(held)
                after = res(h, set(x for x in o if x in ("a", "b", "c"))) if not bad else h
                w = ("none", (sorted(after), text(D3, after))) if not bad else refusal(h)
                cases.append(("%s %r with %r as %s" % (op, held, o, form), w))
    g = lab.bind("\n".join(out), M("mod", *kids3()))
    for j, (n, w) in enumerate(cases):
        run(ctx, lab, g, n, "f_%d" % j, {}, w, site=YT + "YANGBitsType")


@rule("C28", "operations-with-one", 40, limit=250)
def single(ctx):
    """add, discard, remove, pop and clear, from every state; the name also symbolic."""
    lab = ctx.lab()
    out, cases = [TRY], []
    for held in STATES:
        h = set(held)
        for holder in HOLDERS.values():
            for v in ("a", "b", "c", "x", "A", "", "a b", "b ", None, 3):
                known = v in ("a", "b", "c")
                for op in ("add", "discard", "remove"):
                    j = len(cases)
                    out.append(DRV.format(j=j, held=held, holder=holder, code="l.%s(%r)" % (op, v)))
                    after = (h | {v} if op == "add" else h - {v}) if known else h
                    w = ("none", (sorted(after), text(D3, after)))
                    if op == "add" and not known:
                        w = refusal(h)
                    elif op == "discard" and not known:
                        w = refusal(h, True)
                    elif op == "remove" and v not in h:
                        w = refusal(h, True)
                    cases.append(("%s %r from %r, %s" % (op, v, held, holder), w))
            j = len(cases)
            out.append(DRV.format(j=j, held=held, holder=holder, code="l.clear()"))
            cases.append(("clear from %r, %s" % (held, holder), ("none", ([], ""))))
    # several definitions, one unknown name
    out.append("def s_add(v):\n    m = start(['a'])\n    m.c.lf.add(v)\n    return ['a' in m.c.lf, 'b' in m.c.lf, 'c' in m.c.lf]\n")
    out.append("def s_update(v):\n    m = start(['a'])\n    m.c.lf.update(['b', v])\n    return ['a' in m.c.lf, 'b' in m.c.lf, 'c' in m.c.lf]\n")
    out.append("def s_ior(v):\n    m = start(['a'])\n    m.c.lf |= set([v])\n    return ['a' in m.c.lf, 'b' in m.c.lf, 'c' in m.c.lf]\n")
    out.append("def s_list(v):\n    m = mod()\n    m.c.lf = ['a', v]\n    return ['a' in m.c.lf, 'b' in m.c.lf, 'c' in m.c.lf]\n")
    out.append("def s_tuple(v):\n    m = mod()\n    m.c.lf = ('a', v)\n    return ['a' in m.c.lf, 'b' in m.c.lf, 'c' in m.c.lf]\n")
    g = lab.bind("\n".join(out), M("mod", *kids3()))
    for j, (n, w) in enumerate(cases):
        run(ctx, lab, g, n, "f_%d" % j, {}, w, site=YT + "YANGBitsType")
    known = lambda v: v in ("a", "b", "c")
    st = lambda s: [x in s for x in 'abc']
    for fn, res in (("s_add", lambda v: {"a", v}), ("s_update", lambda v: {"a", "b", v}), ("s_ior", lambda v: {"a", v}), ("s_list", lambda v: {"a", v}), ("s_tuple", lambda v: {"a", v})):
        run(ctx, lab, g, "any name, " + fn[2:], fn, {"v": "str"}, accepts(known, lambda v, res=res: st(res(v))), vals("a", "b", "c", "x", "", "ab", "A"), site=YT + "YANGBitsType")


@rule("C28", "construction", 30, limit=250)
def construction(ctx):
    """Texts (any white space, repeated names), collections, other bits and nonsense, assigned, passed to a leaf-list and to a union."""
    lab = ctx.lab()
    VALS = [("'a'", "a"), ("'a b'", "ab"), ("'c b a'", "abc"), ("'  a   b '", "ab"), ("'a\\tb\\nc'", "abc"), ("'a a'", "a"), ("''", ""), ("['b', 'a']", "ab"), ("('c',)", "c"), ("set(['a', 'c'])", "ac"), ("[]", ""), ("o.lf", "bc"), ("set(o.lf)", "bc"), ("o.ow", "ab"),
            ("'x'", None), ("'a x'", None), ("'ab'", None), ("'A'", None), ("'a,b'", None), ("['a', 'x']", None), ("['a b']", None), ("[1]", None), ("[None]", None), ("set(['x'])", None), ("5", None), ("0", None), ("True", None), ("None", None), ("{'a': 1}", None), ("1.5", None), ("o.wide", None), ("['']", None), ("[['a']]", None)]
    other = bits([("a", None), ("b", None)])
    wide = bits([("a", None), ("x", None)])
    kids = [leaf("lf", bits(D3)), S("typedef", "t", bits(D3)), leaf("td", "t"), S("leaf-list", "ll", bits(D3)), leaf("un", typ("union", typ("int8", S("range", "77")), bits(D3))), leaf("ow", other), leaf("wide", wide), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", bits(D3)))]
    out = [TRY, "def other():\n    o = mod()\n    o.lf = 'c b'\n    o.ow = 'a b'\n    o.wide = 'a x'\n    return o\ndef att(f):\n    try:\n        return f()\n    except ValueError:\n        return 'refused'\n    except TypeError:\n        return 'refused with TypeError'\n"]
    for j, (v, w) in enumerate(VALS):
        for nm, put, get in (("lf", "m.lf = %s", "m.lf"), ("td", "m.td = %s", "m.td"), ("entry", "m.l['e'].v = %s", "m.l['e'].v"), ("ll", "m.ll = [%s]", "m.ll[0]"), ("append", "m.ll.append(%s)", "m.ll[0]"), ("un", "m.un = %s", "m.un")):
            out.append("def f_%d_%s():\n    o = other()\n    m = mod()\n    m.l.add('e')\n    m.lf = 'a b'\n    def go():\n        %s\n        return state(m, %s)\n    r = att(go)\n    return r if r != 'refused' else (r, str(m.lf), m.td._changed(), m.un._changed(), len(m.ll), m.l['e'].v._changed())\n" % (j, nm, put % v, get))
    g = lab.bind("\n".join(out), M("mod", *kids))
    for j, (v, w) in enumerate(VALS):
        for nm in ("lf", "td", "entry", "ll", "append", "un"):
            want = (sorted(w), text(D3, set(w))) if w is not None else ("refused", "b a", False, False, 0, False)
            run(ctx, lab, g, "%s to %s" % (v, nm), "f_%d_%s" % (j, nm), {}, want, site=YT + "YANGBitsType")


@rule("C28", "definitions-apart", 5, limit=150)
def apart(ctx):
    """Leaves with different definitions do not share names or positions, whatever is done to one of them."""
    lab = ctx.lab()
    kids = [leaf("x", bits([("a", 0), ("b", 1)])), leaf("y", bits([("b", 0), ("a", 1), ("c", 2)])), leaf("z", bits([("d", None)])), S("typedef", "t", bits([("a", 4), ("e", 3)])), leaf("w", "t"), S("leaf-list", "ll", bits([("a", 1), ("f", 0)]))]
    out = [TRY, "def att(l, v):\n    try:\n        l.add(v)\n        return True\n    except ValueError:\n        return False\n"]
    WANT = {"x": "ab", "y": "bac", "z": "d", "w": "ea"}
    for n in WANT:
        out.append("def f_%s():\n    m = mod()\n    for o in ('a b', 'c', 'd', 'e'):\n        for l in (m.x, m.y, m.z, m.w):\n            try:\n                l.update(o.split())\n            except ValueError:\n                pass\n    r = [att(m.%s, v) for v in 'abcdefg']\n    return r, str(m.%s)\n" % (n, n, n))
    out.append("def own():\n    m = mod()\n    n = mod()\n    m.x.add('a')\n    n.x.add('b')\n    m.ll.append('f a')\n    e = m.ll[0]\n    return str(m.x), str(n.x), str(e), str(mod().x), len(mod().ll)\n")
    g = lab.bind("\n".join(out), M("mod", *kids))
    for n, w in WANT.items():
        run(ctx, lab, g, "leaf " + n, "f_" + n, {}, ([v in w for v in "abcdefg"], " ".join(w)), site=PB + "build_elemtype")
    run(ctx, lab, g, "each object its own", "own", {}, ("a", "b", "f a", "", 0), site=YT + "YANGBitsType")


@rule("C28", "change-is-told", 20, limit=150)
def told(ctx):
    """What changes the bits marks the leaf and its parents as changed; what is refused does not."""
    lab = ctx.lab()
    OPS = ["l.add('b')", "l.discard('a')", "l.remove('a')", "l.pop()", "l.clear()", "l.update(['b'])", "l.difference_update(['a'])", "l.intersection_update(['b'])", "l.symmetric_difference_update(['a', 'b'])", "l |= set(['b'])", "l -= set(['a'])", "l &= set(['b'])", "l ^= set(['c'])"]
    BAD = ["l.add('x')", "l.update(['b', 'x'])", "l.symmetric_difference_update(['x'])", "l |= set(['x'])", "l ^= set(['b', 'x'])"]
    READ = ["'a' in l", "len(l)", "[x for x in l]", "str(l)", "l | set(['b'])", "l.union(['b'])", "l.difference(['a'])", "l.intersection(['a'])", "l.copy()", "l == set(['a'])", "l.issubset(['a'])", "l.isdisjoint(['b'])", "sorted(l)"]
    out, cases = [TRY], []
    todo = [("a", x, (True, True)) for x in OPS] + [("a", x, (False, False)) for x in BAD + READ]
    for s0 in ("", "a b", "a c", "b c", "a b c"):
        for x in OPS + ["l.intersection_update(['a', 'b'])", "l &= set(['c'])", "l.difference_update(['b', 'c'])", "l -= set(['c', 'b'])", "l.symmetric_difference_update(['c'])"]:
            held = {"l": set(s0.split())}
            try:
                exec(x, {}, held)
            except KeyError:
                continue
            if held["l"] != set(s0.split()):
                todo.append((s0, x, (True, True)))
    for s0, c, w in todo:
        j = len(cases)
        out.append("def f_%d():\n    m = mod()\n    m.c.lf = %r\n    l = m.c.lf\n    l._mchanged = False\n    m.c._mchanged = False\n    try:\n        %s\n    except ValueError:\n        pass\n    return m.c.lf._changed(), m.c._changed()\n" % (j, s0, c))
        cases.append((c + (" of " + s0 if s0 != "a" else ""), w))
    g = lab.bind("\n".join(out), M("mod", *kids3()))
    for j, (c, w) in enumerate(cases):
        run(ctx, lab, g, c, "f_%d" % j, {}, w, site=YT + "YANGBitsType")
