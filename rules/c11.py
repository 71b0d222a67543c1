"""C11: filtering keeps exactly the changed and present nodes."""

import itertools

from .common import *
from .c10 import HEAD, strict, conc

explain("C11", "One schema with every kind of node (leaves with and without defaults, zero and empty defaults, leaf-lists, containers within containers, presence containers with and without children, keyed and keyless lists, choices) is put through histories of assignments - every single change and every pair of changes, including changes to the value a node already has, unsetting, deletion of entries and setting presence - and then extracted with and without filtering in the default, the IETF and the XML form. The drivers are interpreted abstractly through the emitted code and the library; the documents are compared with the set of changed nodes known from the history.")

GET = BASE + "PybindBase.get"
TREE = SER + "make_generate_ietf_tree"

ST = typ("string")
MOD = M(
    "mod",
    S("leaf", "a", ST), leaf("d", "int8", S("default", "5")), leaf("z", "int8", S("default", "0")), leaf("b", "boolean", S("default", "false")), leaf("bt", "boolean", S("default", "true")), leaf("es", "string", S("default", "")), leaf("em", "empty"),
    leaf("en", typ("enumeration", S("enum", "A"), S("enum", "B")), S("default", "B")), leaf("un", typ("union", typ("int8"), typ("string")), S("default", "x")), leaf("u64", "uint64"),
    leaf("bi", typ("bits", S("bit", "p"), S("bit", "q")), S("default", "q")), leaf("lr", typ("leafref", S("path", "/a")), S("default", "lrd")),
    S("leaf-list", "ll", ST),
    S("container", "c", leaf("x", "string"), leaf("dz", "int8", S("default", "0")), S("container", "e", leaf("y", "string", S("default", "yy"))), S("container", "p", S("presence", "p"), leaf("q", "string"), S("container", "pi", leaf("r", "string"))), S("container", "pe", S("presence", "p")), S("leaf-list", "cl", typ("int8"))),
    S("container", "nothing", S("container", "nested", leaf("never", "string"))),
    S("container", "bare"),
    S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string"), leaf("w", "int8", S("default", "3")), S("container", "ic", leaf("zz", "string")), S("list", "il", S("key", "j"), leaf("j", "string"), leaf("iv", "string")), S("container", "ip", S("presence", "p"))),
    S("list", "two", S("key", "k1 k2"), leaf("k1", "string"), leaf("k2", "string"), leaf("v", "string")),
    S("choice", "ch", S("case", "ca", leaf("ca1", "string"), leaf("ca2", "string", S("default", "cad"))), S("case", "cb", S("container", "cbc", leaf("cb2", "string")))),
)
# name, statements, paths that must come out (default mode)
ITEMS = [
    ("a", "m.a = 's'", {("a",): "s"}), ("a-empty", "m.a = ''", {("a",): ""}), ("a-unset", "m.a = 's'; m._unset_a()", {}),
    ("d-default", "m.d = 5", {("d",): 5}), ("d-zero", "m.d = 0", {("d",): 0}), ("d-unset", "m.d = 7; m._unset_d()", {}), ("z-default", "m.z = 0", {("z",): 0}), ("b-default", "m.b = False", {("b",): False}), ("bt", "m.bt = False", {("bt",): False}), ("es-default", "m.es = ''", {("es",): ""}), ("em", "m.em = True", {("em",): True}),
    ("en", "m.en = 'B'", {("en",): "B"}), ("un", "m.un = 'x'", {("un",): "x"}), ("un2", "m.un = 0", {("un",): 0}), ("bi", "m.bi = 'p'", {("bi",): "p"}), ("lr", "m.lr = 'ref'", {("lr",): "ref"}),
    ("ll", "m.ll = ['1', '2']", {("ll",): ["1", "2"]}), ("ll-append", "m.ll.append('1')", {("ll",): ["1"]}), ("ll-emptied", "m.ll.append('1'); m.ll.remove('1')", {}), ("ll-reset", "m.ll = ['1']; m._unset_ll()", {}),
    ("cx", "m.c.x = 's'", {("c", "x"): "s"}), ("cx-empty", "m.c.x = ''", {("c", "x"): ""}), ("cdz", "m.c.dz = 0", {("c", "dz"): 0}), ("cey", "m.c.e.y = 'yy'", {("c", "e", "y"): "yy"}), ("cey-unset", "m.c.e.y = 's'; m.c.e._unset_y()", {}), ("ce-unset", "m.c.e.y = 's'; m.c._unset_e()", {}), ("c-unset", "m.c.x = 's'; m.c.e.y = 't'; m._unset_c()", {}),
    ("p-present", "m.c.p._set_present()", {("c", "p"): {}}), ("pe-present", "m.c.pe._set_present()", {("c", "pe"): {}}), ("p-below", "m.c.p.q = 's'", {("c", "p", "q"): "s"}), ("p-below2", "m.c.p.pi.r = 's'", {("c", "p", "pi", "r"): "s"}), ("p-absent", "m.c.p._set_present(); m.c.p._set_present(False)", {}), ("pe-absent", "m.c.pe._set_present(); m.c.pe._set_present(False)", {}),
    ("cl", "m.c.cl = [0]", {("c", "cl"): [0]}),
    ("l-add", "m.l.add('k1')", {("l", "k1", "k"): "k1"}), ("l-v", "m.l.add('k2').v = 's'", {("l", "k2", "k"): "k2", ("l", "k2", "v"): "s"}), ("l-w", "m.l.add('k3').w = 3", {("l", "k3", "k"): "k3", ("l", "k3", "w"): 3}), ("l-ic", "m.l.add('k4').ic.zz = 's'", {("l", "k4", "k"): "k4", ("l", "k4", "ic", "zz"): "s"}), ("l-il", "m.l.add('k5').il.add('j1').iv = ''", {("l", "k5", "k"): "k5", ("l", "k5", "il", "j1", "j"): "j1", ("l", "k5", "il", "j1", "iv"): ""}), ("l-deleted", "m.l.add('k6').v = 's'; m.l.delete('k6')", {}), ("l-v-unset", "e = m.l.add('k7'); e.v = 's'; e._unset_v()", {("l", "k7", "k"): "k7"}), ("l-ip", "m.l.add('k8').ip._set_present()", {("l", "k8", "k"): "k8", ("l", "k8", "ip"): {}}),
    ("two", "m.two.add('x y').v = 's'", {("two", "x y", "k1"): "x", ("two", "x y", "k2"): "y", ("two", "x y", "v"): "s"}),
    ("ch-a", "m.ca1 = 's'", {("ca1",): "s"}), ("ch-b", "m.cbc.cb2 = 's'", {("cbc", "cb2"): "s"}), ("ch-switch", "m.ca1 = 's'; m.ca2 = 't'; m.cbc.cb2 = 's'", {("cbc", "cb2"): "s"}), ("ch-back", "m.cbc.cb2 = 's'; m.ca2 = 'cad'", {("ca2",): "cad"}),
]
LISTS = {"l": "k", "il": "j", "two": "k1 k2"}
SMALL = ["a", "d-default", "b-default", "ll-append", "cx", "cey", "ce-unset", "p-present", "pe-present", "p-absent", "p-below", "cl", "l-add", "l-v", "l-deleted", "l-ic", "l-il", "two", "ch-b", "cx-empty"]


def clash(a, b):
    """Whether the two changes are about the same node (the later undoes the earlier)."""
    f = lambda n: n.split("-")[0]
    x, y = f(a).rstrip("2"), f(b).rstrip("2")
    if x == y and x not in ("l",):
        return True
    return {x, y} == {"cey", "ce"} or "c-unset" in (a, b)


def nest(paths, ietf):
    """The document of {path: value}."""
    d = {}
    for p, v in paths.items():
        cur = d
        for i, x in enumerate(p[:-1]):
            cur = cur.setdefault(x, {})
        cur[p[-1]] = v

    def conv(x, name=None):
        if isinstance(x, dict):
            if name in LISTS:
                return [conv(e) for e in x.values()]
            return {k: conv(v, k) for k, v in x.items()}
        return x

    if not ietf:
        return d
    d = conv(d)
    return {"mod:" + k: v for k, v in d.items()}


def ietf_value(paths):
    return {p: ([None] if p[-1] == "em" else v) for p, v in paths.items()}


def xml_leaves(paths):
    out = []
    for p, v in paths.items():
        for x in v if isinstance(v, list) else [v]:
            out.append([p[-1], None if x == {} or p[-1] == "em" else str(x).lower() if isinstance(x, bool) else str(x)])
    return sorted(out, key=repr)


def xml_want(paths):
    w = xml_leaves(paths)

    def want(r, rep):
        x = conc(r)
        if x is None:
            return None
        if not isinstance(x[0], list):
            return False
        return sorted(x[0], key=repr) == w

    return want


def filtered(name, combos, **kw):
    @rule("C11", name, 1, **kw)
    def _(ctx):
        lab = ctx.lab()
        out = [HEAD]
        for i, its in enumerate(combos):
            out.append("def f_%d():\n    m = mod()\n    %s\n    return refused(pbj.dumps, m), refused(pbj.dumps, m, mode='ietf'), refused(xml, m)\n" % (i, "\n    ".join(x[1] for x in its)))
        g = lab.bind("\n".join(out), MOD, generate_presence=True)
        for i, its in enumerate(combos):
            paths = {}
            for x in its:
                paths.update(x[2])
            n = " then ".join(x[0] for x in its) or "nothing"
            ws = [(n + " default", strict(nest(paths, False))), (n + " ietf", strict(nest(ietf_value(paths), True))), (n + " xml", xml_want(paths))]
            run_each(ctx, lab, g, "f_%d" % i, {}, ws, TREE)


filtered("single-changes", [[]] + [[x] for x in ITEMS], limit=200)
small = [x for x in ITEMS if x[0] in SMALL]
PAIRS = [[a, b] for a in small for b in small if a is not b and not clash(a[0], b[0])]
filtered("pairs-of-changes", PAIRS[::3], limit=250)
filtered("pairs-of-changes-all", PAIRS, tier="thorough", limit=400)
BIG = [x for x in ITEMS if x[0] in ("a", "d-zero", "b-default", "ll", "cx", "cdz", "cey", "pe-present", "p-below", "cl", "l-v", "l-w", "l-ic", "l-il", "two", "ch-b", "em")]
filtered("many-changes", [BIG, BIG[::-1], [x for x in ITEMS if x[0] in ("p-present", "pe-present", "l-deleted", "l-ip", "ll-emptied", "ce-unset")], [x for x in ITEMS if not x[2]]])

DEFAULTS = {("d",): 5, ("z",): 0, ("b",): False, ("bt",): True, ("es",): "", ("en",): "B", ("un",): "x", ("bi",): "q", ("lr",): "lrd", ("c", "dz"): 0, ("c", "e", "y"): "yy", ("ca2",): "cad"}
LEAVES = list(DEFAULTS) + [("a",), ("em",), ("u64",), ("c", "x"), ("c", "p", "q"), ("c", "p", "pi", "r"), ("nothing", "nested", "never"), ("ca1",), ("cbc", "cb2")]
LENTRY = {("w",): 3}


def flatten(d, pre=()):
    out = {}
    if isinstance(d, dict):
        for k, v in d.items():
            k = k.split(":")[-1]
            if isinstance(v, list) and k in LISTS:
                for e in v:
                    key = " ".join(str(e.get(n)) for n in LISTS[k].split(" "))
                    out.update(flatten(e, pre + (k, key)))
            elif isinstance(v, dict):
                out.update(flatten(v, pre + (k,)))
            else:
                out[pre + (k,)] = v
    return out


def all_leaves(paths, entries, form):
    """Every leaf of the schema is there, with the value set or its default."""
    wanted = {p: DEFAULTS.get(p, ANY) for p in LEAVES}
    for e in entries:
        wanted.update({("l", e, "k"): e, ("l", e, "v"): ANY, ("l", e, "w"): 3, ("l", e, "ic", "zz"): ANY})
    wanted.update(paths)
    if form == "ietf":
        wanted = ietf_value(wanted)
        if ("em",) not in paths:
            wanted[("em",)] = ANY

    def want(r, rep):
        x = conc(r)
        if x is None:
            return None
        got = flatten(x[0])
        for p, v in wanted.items():
            if isinstance(v, (list, dict)) and p[-1] != "em":
                continue
            if p not in got or (v is not ANY and not (got[p] == v and isinstance(got[p], bool) == isinstance(v, bool))):
                return False
        return True

    return want


@rule("C11", "without-filtering", 20, limit=200)
def nofilter(ctx):
    lab = ctx.lab()
    combos = [[]] + [[x] for x in ITEMS if x[0] in ("a", "d-default", "d-zero", "d-unset", "z-default", "b-default", "bt", "es-default", "em", "en", "un2", "bi", "lr", "cx", "cdz", "cey", "cey-unset", "ce-unset", "p-below", "l-add", "l-v", "l-w", "l-v-unset", "ch-a", "ch-b", "ch-back")] + [BIG]
    out = [HEAD]
    for i, its in enumerate(combos):
        out.append("def f_%d():\n    m = mod()\n    %s\n    return refused(pbj.dumps, m, filter=False), refused(pbj.dumps, m, filter=False, mode='ietf')\n" % (i, "\n    ".join(x[1] for x in its)))
    g = lab.bind("\n".join(out), MOD, generate_presence=True)
    for i, its in enumerate(combos):
        paths, entries = {}, set()
        for x in its:
            paths.update(x[2])
        entries = sorted({p[1] for p in paths if p[0] == "l"})
        n = " then ".join(x[0] for x in its) or "nothing"
        run_each(ctx, lab, g, "f_%d" % i, {}, [(n + " default", all_leaves(paths, entries, "default")), (n + " ietf", all_leaves(paths, entries, "ietf"))], GET)
