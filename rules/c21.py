"""C21: every YANG identifier maps to one usable, unreserved Python name everywhere."""

import keyword

from .common import *
from .c10 import HEAD as PRELUDE

explain("C21", "For every keyword of Python, every attribute that the classes of containers have (collected from the emitted and the library code), every name that the emitted code refers to, and names with every combination of separators: a schema in which the name is that of a leaf, container, list, leaf-list, list key (sole, first and last), choice member, reference target and reference is generated, the emitted code is parsed and evaluated, and drivers assign, read, add, print, dump, load (JSON, IETF JSON, XML), reset, register and look up the node under the one name; the name is that with separators replaced, changed only where it is reserved; the YANG name is what documents hold. The same is decided for code that is split into packages, and for containers whose names or paths differ only in separators.")

SITE = YT + "safe_name"
KW = sorted(set(keyword.kwlist))
LISTED = "list str int decimal float map set exec pop insert remove add delete local get default yang_name print property min max".split()
USED = "OrderedDict append extend present self builtins elements unicode YANGDynClass kwargs args load value key PybindBase YANGBool RestrictedClassType Decimal v t e six long helper extmethods object super getattr setattr hasattr len range isinstance ValueError TypeError parent path changed metadata keys items values clear count index sort update bool bytes type module format choice is_leaf base namespace match case".split()
UNDER = "_add_metadata _base_type _changed _choice _cpresent _default _defining_module _extensionsd _extmethods _is_container _is_keyval _is_leaf _mchanged _metadata _namespace _parent _path _path_helper _presence _present _pyangbind_elements _pybind_generated_by _register_paths _register_path _set _set_present _supplied_register_path _yang_name _yang_namespace _yang_path _yang_type __slots__ __init__ __class__ __dict__ __getattribute__ __new__ __str__ __iter__ __doc__ __module__ __foo _foo _".split()
SEPS = "a-b a.b a-b.c-d a--b a.-b a- a. a_b x-y_z.w A-b class-x x-class get-x".split()


def kinds(n):
    return [S("container", "aa", leaf(n, "string"), leaf("zz", "int8")), S("container", "bb", S("container", n, leaf("q", "string")), leaf("zz", "int8")),
            S("container", "cc", S("list", n, S("key", "k"), leaf("k", "string"), leaf("q", "int8")), leaf("zz", "int8")), S("container", "dd", S("leaf-list", n, typ("string")), leaf("zz", "int8")),
            S("list", "sole", S("key", n), leaf(n, "string"), leaf("zz", "int8")), S("list", "first", S("key", n + " zb"), leaf(n, "string"), leaf("zb", "string")), S("list", "last", S("key", "ab " + n), leaf("ab", "string"), leaf(n, "string")),
            S("container", "gg", S("choice", "ch", S("case", "one", leaf(n, "string")), S("case", "two", leaf("q", "string"))))]


DRIVE = PRELUDE + '''
from pyangbind.lib.serialise import pybindJSONDecoder
import pyangbind.lib.pybindJSON as pbj
def pn(o, n):
    r = [x for x in o._pyangbind_elements if getattr(o, x)._yang_name == n]
    return r[0] if len(r) == 1 else r
'''
BODY = '''
P = {p}
def names():
    m = mod()
    m.sole.add('s')
    m.first.add('a b')
    m.last.add('a b')
    return [pn(x, {n!r}) for x in (m.aa, m.bb, m.cc, m.dd, m.sole['s'], m.first['a b'], m.last['a b'], m.gg)], [len(x._pyangbind_elements) for x in (m.aa, m.bb, m.cc, m.dd)]
def fill(m):
    for o, v in ((m.aa, 'x'), (m.gg, 'g')):
        setattr(o, P, v)
    setattr(getattr(m.bb, P), 'q', 'y')
    getattr(m.cc, P).add('k').q = 4
    getattr(m.dd, P).append('w')
    m.sole.add('s')
    m.first.add('a b')
    m.last.add('c d')
    for o in (m.aa, m.bb, m.cc, m.dd):
        o.zz = 3
    return m
def read(m):
    return (getattr(m.aa, P), getattr(m.bb, P).q, [str(k) for k in getattr(m.cc, P).keys()], [x.q for x in getattr(m.cc, P).values()], [x for x in getattr(m.dd, P)],
            [(str(k), getattr(e, P)) for k, e in m.sole.items()], [(str(k), getattr(e, P), e.zb) for k, e in m.first.items()], [(str(k), e.ab, getattr(e, P)) for k, e in m.last.items()], getattr(m.gg, P), m.gg.q, m.aa.zz, m.bb.zz, m.cc.zz, m.dd.zz)
def values():
    return read(fill(mod()))
def reset():
    m = fill(mod())
    for o in (m.aa, m.bb, m.cc, m.dd, m.gg):
        getattr(o, '_unset_%s' % P)()
    return [getattr(o, P)._changed() for o in (m.aa, m.dd, m.gg)], getattr(m.bb, P).q._changed(), len(getattr(m.cc, P))
def changed():
    m = mod()
    r = [o._changed() for o in (m.aa, m.bb, m.cc, m.dd)]
    fill(m)
    return r, [o._changed() for o in (m.aa, m.bb, m.cc, m.dd)], [o._path() for o in (m.aa, getattr(m.bb, P))], [getattr(o, P)._path() for o in (m.aa, m.cc, m.dd)]
def case():
    m = fill(mod())
    m.gg.q = 'other'
    return getattr(m.gg, P)._changed(), m.gg.q
def plain():
    return fill(mod()).get()
def text():
    return len(str(fill(mod()).aa)) > 0
def json():
    return pbj.dumps(fill(mod()))
def ietf():
    return pbj.dumps(fill(mod()), mode='ietf')
def back():
    m = mod()
    pybindJSONDecoder.load_json(pbj.dumps(fill(mod())), None, None, obj=m)
    return read(m)
def iback():
    m = mod()
    pybindJSONDecoder.load_ietf_json(pbj.dumps(fill(mod()), mode='ietf'), None, None, obj=m)
    return read(m)
'''
VALUES = ("x", "y", ["k"], [4], ["w"], [("s", "s")], [("a b", "a", "b")], [("c d", "c", "d")], "g", "", 3, 3, 3, 3)


def plain(n, q=""):
    return {q + "aa": {n: "x", "zz": 3}, q + "bb": {n: {"q": "y"}, "zz": 3}, q + "dd": {n: ["w"], "zz": 3}, q + "gg": {n: "g"}}


def doc(n):
    d = plain(n)
    d.update({"cc": {n: {"k": {"k": "k", "q": 4}}, "zz": 3}, "sole": {"s": {n: "s"}}, "first": {"a b": {n: "a", "zb": "b"}}, "last": {"c d": {"ab": "c", n: "d"}}})
    return d


def idoc(n):
    d = plain(n, "mod:")
    d.update({"mod:cc": {n: [{"k": "k", "q": 4}], "zz": 3}, "mod:sole": [{n: "s"}], "mod:first": [{n: "a", "zb": "b"}], "mod:last": [{"ab": "c", n: "d"}]})
    return d


def extra(d, n):
    """get() also has what was not set."""
    r = {k: dict(v) for k, v in doc(n).items()}
    r["gg"] = dict(r["gg"], q="")
    r["sole"] = {"s": {n: "s", "zz": 0}}
    return r


def expected(n):
    p = n.replace("-", "_").replace(".", "_")
    return p


def full(ctx, n, p, what):
    lab = ctx.lab()
    g = lab.bind(DRIVE + BODY.format(n=n, p=repr(p)), M("mod", *kinds(n)))
    run(ctx, lab, g, n + " is " + p, "names", {}, ([p] * 8, [2, 2, 2, 2]), site=SITE)
    run(ctx, lab, g, n + " values", "values", {}, VALUES, site=SITE)
    run(ctx, lab, g, n + " reset", "reset", {}, ([False, False, False], False, 0), site=SITE)
    run(ctx, lab, g, n + " changed", "changed", {}, ([False] * 4, [True] * 4, [["aa"], ["bb", n]], [["aa", n], ["cc", n], ["dd", n]]), site=SITE)
    run(ctx, lab, g, n + " in a case", "case", {}, (False, "other"), site=SITE)
    run(ctx, lab, g, n + " extracted", "plain", {}, extra(None, n), site=SITE)
    run(ctx, lab, g, n + " printed", "text", {}, True, site=SITE)
    run(ctx, lab, g, n + " in JSON", "json", {}, doc(n), site=SITE)
    run(ctx, lab, g, n + " in IETF JSON", "ietf", {}, idoc(n), site=SITE)
    run(ctx, lab, g, n + " loaded", "back", {}, VALUES, site=SITE)
    run(ctx, lab, g, n + " loaded from IETF JSON", "iback", {}, VALUES, site=SITE)


def group(name, ns, py, chunk, minimum):
    for i in range(0, len(ns), chunk):
        part = ns[i:i + chunk]

        @rule("C21", "%s-%d" % (name, i // chunk + 1), minimum, limit=300)
        def _(ctx, part=part):
            for n in part:
                with ctx.instance(n):
                    full(ctx, n, py(n), name)


def trailing(n):
    return n.replace("-", "_").replace(".", "_") + "_"


def separators(n):
    p = n.replace("-", "_").replace(".", "_")
    return p


BRIEF = '''
def together():
    m = fill(mod())
    a = read(m)
    d = pbj.dumps(m)
    i = pbj.dumps(m, mode='ietf')
    s = str(m.aa)
    g = m.get()
    n = mod()
    pybindJSONDecoder.load_json(d, None, None, obj=n)
    q = mod()
    pybindJSONDecoder.load_ietf_json(i, None, None, obj=q)
    return P, a, d, i, read(n), read(q), g
'''


def brief(name, ns, chunk):
    """What the name is called is for the code to choose, within the statement."""
    for i in range(0, len(ns), chunk):
        part = ns[i:i + chunk]

        @rule("C21", "%s-%d" % (name, i // chunk + 1), 3, limit=300)
        def _(ctx, part=part):
            lab = ctx.lab()
            for n in part:
                with ctx.instance(n, SITE):
                    g = lab.bind(DRIVE + BODY.format(n=n, p="pn(mod().aa, %r)" % n) + BRIEF, M("mod", *kinds(n)))

                    def want(r, rep, n=n):
                        if isinstance(r, Raised):
                            return None if r.name is None else False
                        if not isinstance(r, tuple) or not isinstance(r[0], str):
                            return same(r, ("",)) if isinstance(r, tuple) else None
                        if not r[0].isidentifier() or keyword.iskeyword(r[0]) or r[0].startswith("__"):
                            return False
                        return same(r[1:], (VALUES, doc(n), idoc(n), VALUES, VALUES, extra(None, n)))

                    run(ctx, lab, g, n, "together", {}, want, site=SITE)


group("keyword", KW, trailing, 6, 6)
group("separators", SEPS, separators, 7, 20)
brief("listed", LISTED, 8)
brief("used", USED, 9)
brief("attribute", UNDER, 8)


@rule("C21", "paths-apart", 6, limit=150)
def apart(ctx):
    """Containers and lists whose names or paths differ only in separators keep their own members."""
    lab = ctx.lab()
    c = lambda n, *k: S("container", n, *k)
    cases = {
        "x/a/c and x-a/c": ([c("x", c("a", c("c", leaf("p", "string")))), c("x-a", c("c", leaf("q", "string")))], {"x.a.c": ["p"], "x_a.c": ["q"]}),
        "x.a/c and x/a.c": ([c("x.y", c("z", leaf("p", "string"))), c("x", c("y.z", leaf("q", "string"))), c("x-y", c("w", leaf("r", "string")), c("z", leaf("s", "string")))][:2], {"x_y.z": ["p"], "x.y_z": ["q"]}),
        "lists": ([c("a", S("list", "b-c", S("key", "k"), leaf("k", "string"), leaf("p", "string")), c("b", c("c", leaf("r", "string")))), c("a-b", S("list", "c", S("key", "k"), leaf("k", "string"), leaf("q", "string")))], {"a.b_c.add('x')": ["k", "p"], "a.b.c": ["r"], "a_b.c.add('x')": ["k", "q"]}),
        "three": ([c("a", c("b", c("c", leaf("p", "string")), leaf("i", "int8"))), c("a-b", c("c", leaf("q", "string"))), c("a.b.x", c("c", leaf("r", "string"))), c("a_b_x", leaf("t", "string")), ][:3], {"a.b.c": ["p"], "a.b": ["c", "i"], "a_b.c": ["q"], "a_b_x.c": ["r"]}),
        "of the module": ([c("mod", c("mod", leaf("p", "string")), leaf("q", "string"))], {"mod.mod": ["p"], "mod": ["mod", "q"]}),
        "in cases": ([S("choice", "ch", S("case", "o", c("a", c("b-c", leaf("p", "string")))), S("case", "t", c("a-b", c("c", leaf("q", "string")))))], {"a.b_c": ["p"], "a_b.c": ["q"]}),
        "same name at depth": ([c("s", c("s", c("s", leaf("p", "string")), leaf("q", "string"))), c("t", c("s", leaf("r", "string")))], {"s": ["s"], "s.s": ["s", "q"], "s.s.s": ["p"], "t.s": ["r"]}),
    }
    for name, (kids, want) in cases.items():
        with ctx.instance(name, PB + "get_children"):
            g = lab.bind("def go():\n    m = mod()\n    return [" + ", ".join("sorted(m.%s._pyangbind_elements.keys())" % w for w in want) + "]\n", M("mod", *kids))
            run(ctx, lab, g, name, "go", {}, [sorted(w) for w in want.values()], site=PB + "get_children")
        with ctx.instance(name + ", split", PB + "get_children"):
            g = lab.package("def go():\n    m = mod()\n    return [" + ", ".join("sorted(m.%s._pyangbind_elements.keys())" % w for w in want) + "]\n", M("mod", *kids))
            run(ctx, lab, g, name + ", split", "go", {}, [sorted(w) for w in want.values()], site=PB + "get_children")


@rule("C21", "split", 10, limit=250)
def split(ctx):
    """Packages of split classes: nested containers of the same name, reserved or not."""
    lab = ctx.lab()
    for n in ("a", "class", "a-b", "import", "get", "None", "mod", "mod-x", "x.y"):
        with ctx.instance(n, PB + "get_children"):
            q = S("container", n, S("container", n, leaf("x", "string"), S("container", n, leaf("y", "int8")), S("list", "l", S("key", "k"), leaf("k", "string"), S("container", n, leaf("z", "string")))))
            g = lab.package("""
def go():
    m = mod()
    def pn(o):
        return [getattr(o, x) for x in o._pyangbind_elements if getattr(o, x)._yang_name == %r][0]
    a = pn(m)
    b = pn(a)
    b.x = 'v'
    pn(b).y = 4
    pn(b.l.add('i')).z = 'w'
    return pbj.dumps(m), m.get()
""" % n, M("mod", q))
            w = {n: {n: {"x": "v", n: {"y": 4}, "l": {"i": {"k": "i", n: {"z": "w"}}}}}}
            run(ctx, lab, g, n, "go", {}, (w, w), site=PB + "get_package_name" if False else SITE)
    for a, b in (("a.b", "a-b"), ("a-b", "a_b"), ("class-", "class")):
        with ctx.instance(a + "/" + b, PB + "get_children"):
            g = lab.package("def go():\n    m = mod()\n    return m.get()\n", M("mod", S("container", a, S("container", b, leaf("x", "string")))))
            run(ctx, lab, g, a + "/" + b, "go", {}, {a: {b: {"x": ""}}}, site=SITE)


@rule("C21", "references", 8, limit=150)
def refs(ctx):
    """With a path helper: registered and looked up under YANG names, references and predicates too."""
    lab = ctx.lab()
    for n in ("class", "a-b", "None", "a.b", "get", "await", "present", "self"):
        p = n.replace("-", "_").replace(".", "_") + ("_" if n not in ("a-b", "a.b") else "")
        with ctx.instance(n, SITE):
            kids = [S("container", n, S("list", "l", S("key", n), leaf(n, "string"), leaf("v", "string"))), leaf("r", typ("leafref", S("path", "/mp:%s/mp:l/mp:%s" % (n, n))))]
            g = lab.bind("""
import pyangbind.lib.xpathhelper as xh
def go():
    h = xh.YANGPathHelper()
    m = mod(path_helper=h)
    c = getattr(m, %r)
    e = c.l.add('one')
    c.l.add('two')
    e.v = 'x'
    m.r = 'two'
    try:
        m.r = 'three'
        bad = 'taken'
    except ValueError:
        bad = 'refused'
    return str(m.r) == "two", bad, e._path(), [x._yang_name for x in h.get('/%s')], len(h.get('/%s/l')), [str(x) for x in h.get("/%s/l[%s='one']/v")], [str(x) for x in h.get('/%s/l/%s')]
""" % (p, n, n, n, n, n, n), M("mod", *kids, prefix="mp"), use_xpathhelper=True)
            run(ctx, lab, g, n, "go", {}, (True, "refused", [n, "l[%s='one']" % n], [n], 2, ["x"], ["one", "two"]), site=SITE)
