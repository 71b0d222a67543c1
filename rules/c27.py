"""C27: a presence container is there exactly when it was set present or given content."""

from .common import *
from .c31 import LOADS, SITES, MODES

explain("C27", "Every history of up to three operations (set present, set absent, unset, assign, set a leaf, a leaf of a container below, a leaf of a presence container below, add a list entry, append to a leaf-list, a refused value, a read, a dump, a load) is run abstractly on presence containers in every position (top, in containers with and without presence, in list entries, in cases, without members), against a two-state machine: what _present() says, whether get(filter) and the IETF document have it, and what re-loading gives. Containers without presence and nodes of other kinds are checked to have none.")

PC = lambda n="p": S("container", n, S("presence", "yes"), leaf("a", "string"), leaf("i", "int8"), leaf("df", "string", S("default", "D")), S("leaf-list", "ll", typ("string")), S("container", "n", leaf("b", "string")), S("container", "q", S("presence", "yes"), leaf("b", "string")), S("list", "l", S("key", "k"), leaf("k", "string"), leaf("v", "string")), S("choice", "ch", S("case", "x", leaf("cx", "string")), S("case", "y", leaf("cy", "string"))))
POS = {
    "top": ([PC()], "m", "doc"),
    "in a container": ([S("container", "o", PC())], "m.o", "doc.get('mod:o', {})"),
    "in a presence container": ([S("container", "o", S("presence", "yes"), PC())], "m.o", "doc.get('mod:o', {})"),
    "in a list entry": ([S("list", "e", S("key", "k"), leaf("k", "string"), PC())], "(m.e['a'] if 'a' in m.e else m.e.add('a'))", "doc.get('mod:e', [{}])[0]"),
    "in a case": ([S("choice", "cc", S("case", "one", PC()), S("case", "two", leaf("other", "string")))], "m", "doc"),
    "without members": ([S("container", "p", S("presence", "yes"))], "m", "doc"),
}
# op: (code with h the holder, present afterwards: True, False or None for as it was)
OPS = {
    "set present": ("h.p._set_present()", True),
    "set present True": ("h.p._set_present(True)", True),
    "set absent": ("h.p._set_present(False)", False),
    "unset": ("h._unset_p()", False),
    "leaf": ("h.p.a = 'v'", True),
    "leaf at its default": ("h.p.df = 'D'", True),
    "leaf empty": ("h.p.a = ''", True),
    "leaf zero": ("h.p.i = 0", True),
    "leaf-list": ("h.p.ll.append('v')", True),
    "leaf below": ("h.p.n.b = 'v'", True),
    "presence below": ("h.p.q._set_present()", True),
    "leaf of presence below": ("h.p.q.b = 'v'", True),
    "entry": ("h.p.l.add('z')", True),
    "leaf of a case": ("h.p.cx = 'v'", True),
    "refused value": ("refused(h.p)", None),
    "reads": ("reads(m, h)", None),
    "dumps": ("pbj.dumps(m, mode='ietf')\npbj.dumps(m)", None),
    "load": ("pybindJSONDecoder.load_json({'p': {}}, None, None, obj=h)", True),
    "load ietf": ("pybindJSONDecoder.load_ietf_json({'p': {}}, None, None, obj=h)", True),
    "load xml": ("pybindIETFXMLDecoder.load_xml(E('x', E('p')), None, None, obj=h)", True),
    "load nothing": ("pybindJSONDecoder.load_json({}, None, None, obj=h)", None),
}
BARE = ("set present", "set absent", "unset", "reads", "dumps", "load", "load ietf", "load xml", "load nothing")
HELP = LOADS + '''
from lxml import objectify
E = objectify.ElementMaker(annotate=False, namespace='urn:mod')
def refused(p):
    for v in ('no', 900):
        try:
            p.i = v
        except ValueError:
            pass
def reads(m, h):
    m.get()
    m.get(filter=True)
    h.p.get()
    h.p.get(filter=True)
    return h.p._path(), h.p._changed(), [x for x in h.p], h.p.yang_name()
def look(m, h, doc, sub):
    return (h.p._present(), 'p' in h.get(filter=True), has(sub))
def has(d):
    return 'p' in d or 'mod:p' in d
'''


def sequences(pos):
    ops = [o for o in OPS if pos != "without members" or o in BARE]
    one = [[a] for a in ops]
    change = [o for o in ops if OPS[o][1] is not None or o in ("refused value", "dumps", "load nothing")]
    if pos in ("top", "without members"):
        two = [[a, b] for a in change for b in change if b != a]
        three = [[a, b, c] for a in ("set present", "leaf below", "load ietf") if a in ops for b in ("set absent", "unset") for c in ops]
    else:
        two = [[a, b] for a in change for b in ("set present", "set absent", "unset", "dumps", "leaf") if b != a and b in ops]
        three = []
    return one + two + three


def positions(pos):
    @rule("C27", "histories-" + pos.replace(" ", "-"), 20, limit=250)
    def _(ctx):
        lab = ctx.lab()
        kids, h, sub = POS[pos]
        out, cases = [HELP], []
        seqs = [[]] + sequences(pos)
        for j, seq in enumerate(seqs):
            body = ["m = mod()", "h = " + h, "out = [h.p._present()]"]
            state, content, want = False, False, [False]
            for o in seq:
                code, after = OPS[o]
                body += code.split("\n") + ["h = " + h, "out.append(h.p._present())"]
                if after is not None:
                    state = after
                if after is True and o not in ("set present", "set present True", "load", "load ietf", "load xml"):
                    content = True
                if o == "unset":
                    content = False
                want.append(state)
            body += ["doc = pbj.dumps(m, mode='ietf')", "return out, h.p._present(), 'p' in h.get(filter=True), has(%s)" % sub]
            out.append("def f_%d():\n    %s\n" % (j, "\n    ".join(body)))
            # what was given and then declared absent without being removed may be in the document or not
            shown = None if content and not state else state
            cases.append((", ".join(seq) or "nothing done", j, want, state, shown))
        g = lab.bind("\n".join(out), M("mod", *kids), generate_presence=True)
        for n, j, want, state, shown in cases:
            def ok(r, rep, want=want, state=state, shown=shown):
                if isinstance(r, Raised):
                    return False
                if not isinstance(r, tuple) or len(r) != 4:
                    return None
                x = same(list(r[:2]), [want, state])
                if x is not True or shown is None:
                    return x
                return same(list(r[2:]), [shown, shown])
            run(ctx, lab, g, n, "f_%d" % j, {}, ok, site=YT + "YANGDynClass")


for _p in POS:
    positions(_p)


@rule("C27", "above-and-beside", 8, limit=150)
def above(ctx):
    """Setting something present sets the presence containers above it, and no others; setting it absent leaves those above and beside as they were."""
    lab = ctx.lab()
    kids = [S("container", "a", S("presence", "y"), S("container", "b", S("container", "c", S("presence", "y"), leaf("v", "string")), S("container", "d", S("presence", "y"), leaf("v", "string"))), S("list", "l", S("key", "k"), leaf("k", "string"), S("container", "e", S("presence", "y"), leaf("v", "string"))))]
    cases = [
        ("m.a.b.c._set_present()", (True, True, False, [])),
        ("m.a.b.c.v = 'x'", (True, True, False, [])),
        ("m.a.b.d.v = 'x'", (True, False, True, [])),
        ("m.a._set_present()", (True, False, False, [])),
        ("m.a.b.c._set_present(); m.a.b.c._set_present(False)", (True, False, False, [])),
        ("m.a.b.c._set_present(); m.a.b.d._set_present(); m.a.b.c._set_present(False)", (True, False, True, [])),
        ("m.a.l.add('1')", (True, False, False, [False])),
        ("m.a.l.add('1').e._set_present(); m.a.l.add('2')", (True, False, False, [True, False])),
        ("m.a.l.add('1'); m.a.l.add('2').e.v = 'x'", (True, False, False, [False, True])),
        ("m.a.l.add('1').e._set_present(); m.a.l.delete('1'); m.a.l.add('1')", (True, False, False, [False])),
        ("m.a.l.add('1').e._set_present(); m.a._unset_l()", (True, False, False, [])),
        ("m.a.b.c._set_present(); m.a._unset_b()", (True, False, False, [])),
        ("m.a.b.c._set_present(); m._unset_a()", (False, False, False, [])),
        ("n = mod(); n.a.b.c._set_present()", (False, False, False, [])),
        ("n = mod(); n.a.b.c.v = 'x'; m.a = n.a", (True, True, False, [])),
        ("n = mod(); n.a.b.d.v = 'x'; m.a.b = n.a.b", (True, False, True, [])),
    ]
    out = [HELP]
    for j, (c, w) in enumerate(cases):
        out.append("def f_%d():\n    m = mod()\n    %s\n    return m.a._present(), m.a.b.c._present(), m.a.b.d._present(), [x.e._present() for x in m.a.l.values()]\n" % (j, c.replace("; ", "\n    ")))
    g = lab.bind("\n".join(out), M("mod", *kids), generate_presence=True)
    for j, (c, w) in enumerate(cases):
        run(ctx, lab, g, c, "f_%d" % j, {}, w, site=YT + "YANGDynClass")


@rule("C27", "only-presence-containers", 8, limit=150)
def only(ctx):
    """Containers without a presence statement and nodes of other kinds have none, and cannot be set present."""
    lab = ctx.lab()
    kids = [S("container", "np", leaf("a", "string"), S("container", "in", leaf("b", "string"))), leaf("lf", "string"), leaf("df", "int8", S("default", "4")), S("leaf-list", "ll", typ("string")), S("list", "l", S("key", "k"), leaf("k", "string")), leaf("un", typ("union", typ("int8"), typ("string"))), leaf("bt", typ("bits", S("bit", "x")))]
    nodes = ["lf", "df", "ll", "l", "un", "bt"]
    out = [HELP, "def kind(n):\n    m = mod()\n    e = getattr(m, n)\n    try:\n        e._set_present()\n        r = False\n    except AttributeError:\n        r = True\n    return r, e._present(), e._changed(), e._cpresent\n",
           "def np(done):\n    m = mod()\n    if done:\n        m.np.in_.b = 'x'\n    return m.np._present(), m.np.in_._present(), m.np._presence, 'np' in m.get(filter=True), 'mod:np' in pbj.dumps(m, mode='ietf')\n",
           "def entry():\n    m = mod()\n    return m.l.add('x')._present()\n"]
    out += ["def k_%s():\n    return kind('%s')\n" % (n, n) for n in nodes] + ["def np_1():\n    return np(True)\n", "def np_0():\n    return np(False)\n"]
    g = lab.bind("\n".join(out), M("mod", *kids), generate_presence=True)
    for n in nodes:
        run(ctx, lab, g, n, "k_" + n, {}, (True, None, False, False), site=YT + "YANGDynClass")
    run(ctx, lab, g, "list entry", "entry", {}, lambda r, rep: False if isinstance(r, Raised) or r is True else (None if isinstance(r, (Term, Opaque)) else r is None or r is False), site=YT + "YANGDynClass")
    run(ctx, lab, g, "container without presence", "np_0", {}, (None, None, False, False, False), site=YT + "YANGDynClass")
    run(ctx, lab, g, "container without presence given content", "np_1", {}, (None, None, False, True, True), site=YT + "YANGDynClass")


@rule("C27", "documents", 20, limit=200)
def documents(ctx):
    """A present, empty container is in every document, comes back present from it, and an absent one is in none."""
    lab = ctx.lab()
    kids = [S("container", "p", S("presence", "y"), leaf("a", "string")), S("container", "e", S("presence", "y")), S("container", "np", S("container", "in", S("presence", "y"), leaf("a", "string"))), S("list", "l", S("key", "k"), leaf("k", "string"), S("container", "pl", S("presence", "y"), leaf("a", "string")))]
    SET = {"p": "m.p._set_present()", "e": "m.e._set_present()", "in": "m.np.in_._set_present()", "pl": "m.l.add('x').pl._set_present()", "entry without": "m.l.add('x')"}
    STATE = "(m.p._present(), m.e._present(), m.np.in_._present(), [x.pl._present() for x in m.l.values()])"
    out, cases = [HELP], []
    names = list(SET)
    subsets = [[]] + [[a] for a in names] + [[a, b] for a in names for b in names if a < b and set((a, b)) != set(("pl", "entry without"))] + [["p", "e", "in", "pl"]]
    for j, sub in enumerate(subsets):
        w = ("p" in sub, "e" in sub, "in" in sub, [True] if "pl" in sub else [False] if "entry without" in sub else [])
        for mode in MODES:
            out.append("def f_%d_%s():\n    m = mod()\n    %s\n    n = mod()\n    rt_%s(m, n)\n    m = n\n    return %s\n" % (j, mode, "\n    ".join(SET[x] for x in sub) or "pass", mode, STATE))
            cases.append(("%s, %s" % (" and ".join(sub) or "nothing", mode), "f_%d_%s" % (j, mode), w, mode))
    g = lab.bind("\n".join(out), M("mod", *kids), generate_presence=True)
    for n, fn, w, mode in cases:
        run(ctx, lab, g, n, fn, {}, w, site=SITES[mode])
