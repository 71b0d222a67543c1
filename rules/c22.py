"""C22: generated classes accept no attributes outside the data model."""

from .common import *

explain("C22", "For modules, containers, presence containers, list entries, rpc input and output, and notifications of several shapes and generator options, drivers that assign attributes outside the schema, and that list the members in all the ways offered, are interpreted abstractly through emitted code and library; the former must raise AttributeError and leave nothing, the latter must give exactly the schema's children in schema order.")

SITE = PB + "get_children"
BITS = typ("bits", S("bit", "p"), S("bit", "q"))
KINDS = [
    leaf("zeta", "string"), leaf("a-b", "int8"), leaf("class", "string"), S("leaf-list", "l.l", typ("int8")), leaf("u", typ("union", typ("int8"), typ("string"))),
    leaf("_under", "string"), leaf("get", "string"), leaf("ref", typ("leafref", S("path", "/top"))), leaf("bits", BITS), leaf("ro", "string", S("config", "false")), leaf("e", "empty"),
    S("container", "con", leaf("x", "string")), S("list", "li", S("key", "k"), leaf("k", "string"), leaf("a-b", "string")), S("container", "import", S("container", "deep", leaf("y", "string"))), leaf("beta", "string"),
    S("choice", "ch", S("case", "c1", leaf("in-case", "string"), S("container", "cc", leaf("x", "string"))), S("case", "c2", leaf("other", "string"))), leaf("alpha", "string"), S("list", "ro-list", S("config", "false"), leaf("x", "string")),
]


def yang_names(kids):
    out = []
    for k in kids:
        if k[0] in ("choice", "case"):
            out += yang_names(k[2])
        elif k[0] in ("leaf", "leaf-list", "container", "list"):
            out.append(k[1])
    return out


RESERVED = {"class": "class_", "import": "import_", "get": "get_", "bits": "bits", "_under": "_under"}


def py(n):
    return RESERVED.get(n, n.replace("-", "_").replace(".", "_"))


D = '''
def refused_{i}():
    m = mod({arg})
    e = {acc}
    out = []
    try:
        e.no_such_node = 1
        out.append("dot")
    except AttributeError:
        pass
    for n in {names!r}:
        try:
            setattr(e, n, "x")
            out.append(n)
        except AttributeError:
            pass
        if n != "get" and hasattr(e, n):
            out.append("has " + n)
    return out, {changed}
def members_{i}():
    m = mod({arg})
    e = {acc}
    g = e.get()
    return [n for n in e._pyangbind_elements], [n for n in e.elements()], [n for n, v in e], list(g.keys()), [hasattr(e, n) for n in e._pyangbind_elements], [getattr(e, n)._yang_name for n in e._pyangbind_elements]
'''


def places(kids):
    """name -> (schema statements, access expression, yang names of the members, whether it knows changes, options)"""
    K = list(kids)
    kx = S("list", "lst", S("key", "id"), leaf("id", "string"), *K)
    return {
        "module": (K, "m", K, False, {}),
        "container": ([S("container", "c", *K)], "m.c", K, True, {}),
        "nested container": ([S("container", "o", S("container", "c", *K))], "m.o.c", K, True, {}),
        "list entry": ([kx], "m.lst.add('x')", [leaf("id", "string")] + K, None, {}),
        "list entry by key": ([kx], "_by(m)", [leaf("id", "string")] + K, None, {}),
        "entry of a nested list": ([S("list", "out", S("key", "id"), leaf("id", "string"), kx)], "m.out.add('y').lst.add('x')", [leaf("id", "string")] + K, None, {}),
        "container of a list entry": ([S("list", "out", S("key", "id"), leaf("id", "string"), S("container", "c", *K))], "m.out.add('y').c", K, True, {}),
        "keyless list entry": ([S("list", "lst", S("config", "false"), *K)], "_nokey(m)", K, None, {}),
        "container in a case": ([S("choice", "x", S("case", "y", S("container", "c", *K)))], "m.c", K, True, {}),
        "presence container": ([S("container", "c", S("presence", "p"), *K)], "m.c", K, True, {"generate_presence": True}),
        "container for a path helper": ([S("container", "c", *K)], "m.c", K, True, {"use_xpathhelper": True}),
        "container with extension methods": ([S("container", "c", *K)], "m.c", K, True, {"use_extmethods": True}),
        "replaced container": ([S("container", "c", *K)], "_repl(m)", K, None, {}),
    }


HELP = '''
def _by(m):
    m.lst.add('x')
    return m.lst['x']
def _nokey(m):
    return m.lst[m.lst.add()]
def _repl(m):
    m._unset_c()
    return m.c
'''


@rule("C22", "closed-classes", minimum=60, limit=400)
def closed(ctx):
    for gi, group in enumerate([KINDS[:4], KINDS[4:8], KINDS[8:12], KINDS[12:15], KINDS[15:], KINDS[3:4], KINDS[12:13]]):
        group = [k for k in group]
        for pi, (where, (sts, acc, kids, chg, opts)) in enumerate(places(group).items()):
            if (gi + pi) % 2 and gi > 1:
                continue
            ys = yang_names(kids)
            ps = [py(n) for n in ys]
            lab = ctx.lab()
            names = ["unknown", "_unknown", "x.y", "a b", "config", "__x"] + [n for n in ys if n not in ps]
            names = [n for n in names if n not in ps]
            inst = "%s with %s" % (where, ", ".join(ys))
            top = [] if where == "module" and any(k[1] == "top" for k in group) else [leaf("top", "string")]
            if where == "module":
                ys, ps = ys + ["top"], ps + ["top"]
            if any(t[1] == "bits" for t in group):
                pass
            body = list(sts) + top
            src = HELP + D.format(i=0, acc=acc, names=names, arg="", changed="e._changed()" if chg else "None")
            try:
                g = lab.bind(src, M("mod", *body, prefix="m"), **opts)
            except (AnalysisBroken, AnalysisLimit) as e:
                ctx.und(inst, str(e)[:200])
                continue
            site = lab.site(SITE)
            run(ctx, lab, g, inst + ": other attributes", "refused_0", {}, ([], False if chg else None), ({},), site)
            run(ctx, lab, g, inst + ": members", "members_0", {}, (ps, ps, ps, ys, [True] * len(ps), ys), ({},), site)


WIDE = [leaf(n, t) for n, t in zip(["a_", "b__", "c.d", "e-f", "g--h", "_i", "j1", "k.2", "L", "m_n", "none", "o", "p-", "q.", "r_-s", "t0"], ["string", "int8", "boolean", "uint64"] * 4)]


@rule("C22", "many-members", minimum=8, limit=200)
def wide(ctx):
    """However many members a node has, and however they are spelled."""
    py_ = lambda n: n.replace("-", "_").replace(".", "_")
    for pi, (where, (sts, acc, kids, chg, opts)) in enumerate(places(WIDE).items()):
        if where in ("nested container", "replaced container", "container of a list entry"):
            continue
        ys = yang_names(kids)
        ps = [py_(n) for n in ys]
        names = [n for n in ["unknown", "_unknown", "x.y", "a b", "config", "__x"] + ys + [n.strip("_") for n in ps] if n not in ps]
        lab = ctx.lab()
        with ctx.instance(where, SITE):
            g = lab.bind(HELP + D.format(i=0, acc=acc, names=names, arg="", changed="e._changed()" if chg else "None"), M("mod", *sts, prefix="m"), **opts)
            run(ctx, lab, g, where + " with 16 members: other attributes", "refused_0", {}, ([], False if chg else None), ({},), lab.site(SITE))
            run(ctx, lab, g, where + " with 16 members: members", "members_0", {}, (ps, ps, ps, ys, [True] * len(ps), ys), ({},), lab.site(SITE))


@rule("C22", "without-children", minimum=4, limit=60)
def empty(ctx):
    for what, sts, acc in [("presence container without children", [S("container", "c", S("presence", "p"))], "m.c"), ("nested", [S("container", "o", S("container", "c", S("presence", "p")))], "m.o.c"), ("in a list entry", [S("list", "lst", S("key", "id"), leaf("id", "string"), S("container", "c", S("presence", "p")))], "m.lst.add('x').c")]:
        lab = ctx.lab()
        g = lab.bind(D.format(i=0, acc=acc, names=["unknown", "_unknown", "a-b"], arg="", changed="e._changed()"), M("mod", leaf("z", "string"), *sts, prefix="m"), generate_presence=True)
        run(ctx, lab, g, what + ": other attributes", "refused_0", {}, ([], False), ({},), lab.site(SITE))
        run(ctx, lab, g, what + ": members", "members_0", {}, ([], [], [], [], [], []), ({},), lab.site(SITE))


R = '''
def rpc():
    top = yc_mod_mod__mod_rpc()
    r = top.do_it
    out = []
    for e in [top, r, r.input, r.output, r.input.c]:
        for n in ["unknown", "_x", "a-b"]:
            try:
                setattr(e, n, 1)
                out.append(n)
            except AttributeError:
                pass
    return out, list(r._pyangbind_elements), list(r.input._pyangbind_elements), list(r.output._pyangbind_elements)
def notification():
    top = yc_mod_mod__mod_notification()
    r = top.happened
    out = []
    for e in [top, r, r.c]:
        for n in ["unknown", "_x", "a-b"]:
            try:
                setattr(e, n, 1)
                out.append(n)
            except AttributeError:
                pass
    return out, list(r._pyangbind_elements)
'''


@rule("C22", "rpcs-and-notifications", minimum=2, limit=60)
def rpc(ctx):
    lab = ctx.lab()
    m = M("mod", leaf("z", "string"), S("rpc", "do-it", S("input", "input", leaf("q", "string"), S("container", "c", leaf("a", "int8"))), S("output", "output", leaf("b", "string"), leaf("a", "string"))), S("notification", "happened", leaf("t", "string"), S("container", "c", leaf("x", "int8")), leaf("r", "int8")), prefix="m")
    g = lab.bind(R, m, build_rpcs=True, build_notifications=True)
    run(ctx, lab, g, "rpc", "rpc", {}, ([], ["input", "output"], ["q", "c"], ["b", "a"]), ({},), lab.site(SITE))
    run(ctx, lab, g, "notification", "notification", {}, ([], ["t", "c", "r"]), ({},), lab.site(SITE))
