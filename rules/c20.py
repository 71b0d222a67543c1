"""C20: generating bindings twice from the same modules gives the same code."""

import hashlib
import itertools

from sa import vals as _vals
from sa.report import Undecided
from sa.scenario import Raise
from sa.vals import T, Term, pp

from .common import *
from .c10 import HEAD
from .c11 import MOD as BROAD

explain("C20", "The emission of modules that use everything the generator handles is interpreted in several runs that differ in what may differ between two runs of an interpreter: the order in which sets are iterated over, what id and hash of texts give, times, random numbers, identifiers drawn, process ids, environment variables. The text emitted must be the same in each; where it is not, the first line that differs and the calls that gave other values are reported. The order of members is read from the classes generated and from what they emit, for all orders of statements of a few kinds.")

SITE = PB + "get_children"
BUILD = PB + "build_pybind"
RUNS = (None, 1, 2, 3)
TEXT = ["time.strftime", "time.ctime", "time.asctime", "socket.gethostname", "getpass.getuser", "platform.node", "tempfile.mktemp", "tempfile.mkdtemp", "secrets.token_hex"]
NUMBER = ["time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time", "random.random", "random.randint", "random.randrange", "random.getrandbits", "os.getpid", "os.getppid", "threading.get_ident"]
VALUE = ["id", "hash", "builtins.id", "builtins.hash"]
ENV = ["os.getenv", "os.environ.get"]
OBJECT = ["uuid.uuid1", "uuid.uuid4", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "random.choice", "random.sample", "random.choices", "time.localtime", "time.gmtime"]


def differing(it, run, seen):
    """Let the calls whose result differs between runs do so."""

    def note(f, site):
        seen.append((f, site))

    def digest(*x):
        return hashlib.md5(repr((run,) + x).encode()).hexdigest()

    def hook(kind, name):
        def text(i, s, f, a, k, site):
            note(name, site)
            return [(s, C("%s-%s" % (name, digest(s.fresh()))))]

        def number(i, s, f, a, k, site):
            note(name, site)
            return [(s, C(int(digest(s.fresh())[:8], 16)))]

        def value(i, s, f, a, k, site):
            if len(a) != 1 or name.endswith("hash") and isinstance(a[0], C) and isinstance(a[0].v, int):
                return None
            note(name, site)
            return [(s, C(int(digest(repr(a[0]))[:8], 16)))]

        def env(i, s, f, a, k, site):
            note(name, site)
            d = a[1] if len(a) > 1 else C(None)
            return [(s, C("value-%s" % run) if run in (1, 2) else d)]

        def obj(i, s, f, a, k, site):
            note(name, site)
            return [(s, T("differs", C(name), C(s.fresh()), C(str(run))))]

        return {"t": text, "n": number, "v": value, "e": env, "o": obj}[kind]

    for kind, names in (("t", TEXT), ("n", NUMBER), ("v", VALUE), ("e", ENV), ("o", OBJECT)):
        for n in names:
            it.hooks[n] = hook(kind, n)


def contains(v, op):
    if isinstance(v, Term):
        return v.op == op or any(contains(a, op) for a in v.args)
    if isinstance(v, tuple):
        return any(contains(a, op) for a in v)
    return False


def emit(lab, run, mods, opts):
    """[(what, text)] emitted in a run, and the calls that may differ."""
    seen = []
    _vals.RUN[0] = run
    try:
        outs = lab.emit(*mods, prepare=lambda it: differing(it, run, seen), **dict(opts))
    finally:
        _vals.RUN[0] = None
    if not outs or any(isinstance(v, Raise) for _, v in outs):
        raise Undecided("the generator does not end on the skeleton: %s" % [pp(v.exc)[:200] for _, v in outs if isinstance(v, Raise)][:2])
    texts = []
    for _, v in outs:
        v = v if isinstance(v, dict) else {"the code": v}
        texts.append(v)
    return texts, seen


def compare(ctx, inst, mods, **opts):
    lab = ctx.lab()
    with ctx.instance(inst, SITE):
        base = None
        for run in RUNS:
            texts, seen = emit(lab, run, mods, opts)
            told = "; ".join(sorted({"%s at %s" % x for x in seen})[:4])
            for t in texts:
                for n, v in t.items():
                    if contains(v, "differs"):
                        ctx.bad(inst, "what %s gives is written to %s" % (told, n), SITE)
                        return
            if len(texts) != 1:
                raise Undecided("%d paths" % len(texts))
            t = texts[0]
            if any(not isinstance(v, C) for v in t.values()):
                raise Undecided("emitted code not determined: %s" % [pp(v)[:150] for v in t.values() if not isinstance(v, C)][:1])
            t = {n: v.v for n, v in t.items()}
            if base is None:
                base = t
                continue
            if list(base) != list(t) and set(base) != set(t):
                ctx.bad(inst, "the files %s are written in one run, %s in another (%s)" % (sorted(set(base) - set(t))[:3], sorted(set(t) - set(base))[:3], told or "a set is iterated over"), SITE)
                return
            for n in base:
                if base[n] != t[n]:
                    a, b = next(((x, y) for x, y in itertools.zip_longest(base[n].split("\n"), t[n].split("\n")) if x != y))
                    ctx.bad(inst, "%s differs between two runs (%s): %r in one, %r in another" % (n, told or "a set is iterated over", (a or "")[:300], (b or "")[:300]), SITE)
                    return
        ctx.ok(inst, "the same in %d runs (%d lines)" % (len(RUNS), sum(x.count("\n") for x in base.values())), SITE)


def idn(n, *bases, **kw):
    return S("identity", n, *[S("base", b) for b in bases], **kw)


def lf(n, t, *subs):
    return S("leaf", n, typ(t, *subs))


IDS = [idn("root")] + [idn(n, "root") for n in ("alpha", "beta", "gamma", "delta")] + [idn(n, "alpha") for n in ("a1", "a2", "a3")] + [idn("x1", "beta"), idn("x2", "x1"), idn("x3", "x2")]
MODULES = {
    "everything": ([BROAD], {"generate_presence": True}),
    "everything with a path helper": ([BROAD], {"use_xpathhelper": True, "generate_presence": True}),
    "identities": ([M("mod", *IDS, lf("i", "identityref", S("base", "root")), lf("j", "identityref", S("base", "alpha")), S("leaf-list", "k", typ("identityref", S("base", "beta"))))], {}),
    "identities of several modules": ([M("one", *IDS, prefix="o"), M("mod", S("import", "one", S("prefix", "p")), idn("m1", "p:root"), idn("m2", "p:alpha"), idn("m3", "m1"), lf("i", "identityref", S("base", "p:root")), lf("j", "identityref", S("base", "m1")), prefix="m")], {}),
    "identities of several modules generated together": ([M("one", *IDS, prefix="o"), M("mod", S("import", "one", S("prefix", "p")), idn("m1", "p:root"), idn("m2", "p:alpha"), lf("i", "identityref", S("base", "p:root")), prefix="m")], {"only": ["one", "mod"]}),
    "identities of many modules": ([M("one", *IDS, prefix="o")] + [M(x, S("import", "one", S("prefix", "p")), idn("of-" + x, "p:root"), idn("more-" + x, "p:alpha"), idn("leaf-" + x, "of-" + x), S("typedef", "t-" + x, typ("int8")), prefix=x) for x in ("five", "four", "three", "two")] + [M("mod", *[S("import", x, S("prefix", "p-" + x)) for x in ("two", "three", "four", "five", "one")], lf("i", "identityref", S("base", "p-one:root")), lf("j", "identityref", S("base", "p-one:alpha")), *[lf("l" + x, "p-%s:t-%s" % (x, x)) for x in ("two", "three", "four")], prefix="m")], {}),
    "typedefs": ([M("mod", S("typedef", "t1", typ("t2", S("range", "1..5"))), S("typedef", "t2", typ("t3")), S("typedef", "t3", typ("int8")), S("typedef", "u", typ("union", typ("t1"), typ("e"), typ("string"))), S("typedef", "e", typ("enumeration", *[S("enum", x) for x in "zyxabc"])), S("typedef", "b", typ("bits", *[S("bit", x) for x in "qwert"])), *[lf("l-" + x, x) for x in ("t1", "t2", "t3", "u", "e", "b")])], {}),
    "enumerations, bits, unions, patterns": ([M("mod", lf("e", "enumeration", *[S("enum", x) for x in ("one", "two", "three", "four")]), lf("b", "bits", *[S("bit", x) for x in ("one", "two", "three", "four")]), lf("u", "union", *[typ(x) for x in ("int8", "boolean", "string")]), lf("p", "string", S("pattern", "a.*"), S("pattern", ".*b"), S("length", "1..5|7..9")), lf("r", "int32", S("range", "1..3|5|7..max")))], {}),
    "choices": ([M("mod", S("choice", "ch", S("case", "one", lf("a", "string"), lf("b", "string")), S("case", "two", lf("c", "string"), S("choice", "in", S("case", "x", lf("d", "string")), S("case", "y", lf("f", "string"))))), S("container", "c", S("choice", "ch", S("case", "one", lf("a", "string")), S("case", "two", lf("c", "string")))))], {}),
    "lists": ([M("mod", S("list", "l", S("key", "c a b"), *[lf(x, "string") for x in "abcd"]), S("list", "k", S("key", "one two"), S("ordered-by", "user"), lf("two", "int8"), lf("one", "string"), S("list", "in", S("key", "q"), lf("q", "string"))), S("list", "nokey", S("config", "false"), lf("v", "string")))], {}),
    "extensions": ([M("mod", leaf("a", "string", S(("ext", "one"), "x"), S(("ext", "two"), "y"), S(("other", "one"), "z")), S("container", "c", S(("ext", "three"), "t"), S(("ext", "one"), "u"), leaf("b", "int8", S(("other", "q"), "q"))))], {"pybind_interested_exts": ["ext", "other"]}),
    "remote procedures and notifications": ([M("mod", S("rpc", "go", S("input", "input", lf("b", "string"), lf("a", "string")), S("output", "output", lf("z", "string"), lf("y", "string"))), S("rpc", "stop", S("input", "input", lf("s", "string"))), S("notification", "n", lf("q", "string"), lf("p", "string")), lf("d", "string"))], {"build_rpcs": True, "build_notifications": True}),
    "several modules": ([M("one", lf("b", "string"), lf("a", "string"), prefix="o"), M("two", S("container", "c", lf("x", "string")), prefix="t"), M("mod", S("container", "m", S("leaf", "aug", typ("string"), aug="one"), lf("own", "string")), prefix="m")], {"only": ["mod", "two", "one"]}),
    "submodules": ([M("mod", S("include", "sub"), lf("a", "st"), lf("i", "identityref", S("base", "si")), idn("i1", "si"), idn("i2", "si"), prefix="m"), M("sub", S("typedef", "st", typ("int8")), idn("si"), lf("sl", "string"), keyword="submodule", belongs_to="mod", prefix="m")], {"only": ["mod"]}),
    "extension methods": ([BROAD], {"use_extmethods": True}),
    "defaults": ([M("mod", S("leaf", "a", typ("union", typ("int8"), typ("string")), S("default", "x")), S("leaf", "b", typ("bits", S("bit", "p"), S("bit", "q")), S("default", "q p")), S("leaf-list", "c", typ("string"), S("default", "v")), S("leaf", "d", typ("decimal64", S("fraction-digits", "2")), S("default", "1.50")), S("leaf", "e", typ("identityref", S("base", "root")), S("default", "alpha")), *IDS)], {}),
    "names": ([M("mod", *[lf(x, "string") for x in ("class", "a-b", "a.b", "list", "import", "x1", "_y")], S("container", "while", lf("for", "string")))], {}),
}
SPLIT = ["everything", "several modules", "lists", "choices", "names", "remote procedures and notifications", "identities of several modules generated together"]


def same(part, parts):
    @rule("C20", "runs-%d" % (part + 1), 2, limit=250)
    def go(ctx):
        todo = [(n, n, {}) for n in MODULES] + [(n + " in split classes", n, {"split_class_dir": "/pk"}) for n in SPLIT]
        for inst, n, more in todo[part::parts]:
            mods, opts = MODULES[n]
            compare(ctx, inst, mods, **dict(opts, **more))


for _i in range(5):
    same(_i, 5)


# ------------------------------------------------------------ order
KINDS = {
    "leaf": leaf("zl", "string"), "other leaf": leaf("al", "int8"), "container": S("container", "mc", leaf("x", "string")), "list": S("list", "bl", S("key", "k"), leaf("k", "string")), "leaf-list": S("leaf-list", "yl", typ("string")),
    "choice": S("choice", "ch", S("case", "c2", leaf("q2", "string"), leaf("q1", "string")), S("case", "c1", leaf("q3", "string"))), "augmented": S("leaf", "aug", typ("string"), aug="other"), "leafref": lf("lr", "leafref", S("path", "../zl")), "enumeration": lf("en", "enumeration", S("enum", "e")), "presence container": S("container", "dp", S("presence", "p")), "state": S("leaf", "st", typ("string"), S("config", "false")),
}
NAMES = {"leaf": ["zl"], "other leaf": ["al"], "container": ["mc"], "list": ["bl"], "leaf-list": ["yl"], "choice": ["q2", "q1", "q3"], "augmented": ["aug"], "leafref": ["lr"], "enumeration": ["en"], "presence container": ["dp"], "state": ["st"]}
FILL = {"zl": "m._set_zl('s')", "al": "m._set_al(1)", "mc": "m.mc._set_x('s')", "bl": "m.bl.add('k')", "yl": "m.yl.append('s')", "q2": "m._set_q2('s')", "q1": "m._set_q1('s')", "q3": None, "aug": "m._set_aug('s')", "lr": "m._set_lr('s')", "en": "m._set_en('e')", "dp": "m.dp._set_present()", "st": "m._set_st('s')"}


OTHER = M("other", leaf("unrelated", "string"), prefix="o")


def orders():
    some = ["leaf", "container", "list", "leaf-list", "choice"]
    for i, p in enumerate(itertools.permutations(some)):
        if i % 7 == 0:
            yield p
    rest = ["other leaf", "augmented", "leafref", "enumeration", "presence container", "state", "leaf"]
    for i in range(len(rest)):
        yield tuple(rest[i:] + rest[:i])
        yield tuple(reversed(rest[i:] + rest[:i]))
    yield tuple(KINDS)
    yield tuple(reversed(list(KINDS)))


def order(where):
    @rule("C20", "order-" + where, 30, limit=250)
    def go(ctx):
        lab = ctx.lab()
        for p in orders():
            kids = [KINDS[k] for k in p]
            names = [n for k in p for n in NAMES[k]]
            m, node = {
                "of-a-module": (M("mod", *kids), "mod()"), "of-a-container": (M("mod", S("container", "c", *kids)), "mod().c"), "of-an-entry": (M("mod", S("list", "l", S("key", "zk"), leaf("zk", "string"), *kids)), "mod().l.add('k')"),
            }[where]
            names = (["zk"] if where == "of-an-entry" else []) + names
            fill = [FILL[n] for n in reversed(names) if n in FILL and FILL[n]]
            out = [n for n in names if n == "zk" or FILL[n]]
            D = HEAD + "def members():\n    m = %s\n    return [[n for n in m._pyangbind_elements], [n for n, _ in m]]\ndef read():\n    m = %s\n    %s\n    return [list(m.get(filter=True)), list(pbj.dumps(m)), [k.split(':')[-1] for k in pbj.dumps(m, mode='ietf')], list(m.get())]\n" % (node, node, "\n    ".join(fill))
            inst = ", ".join(p)
            with ctx.instance(inst, SITE):
                g = lab.bind(D, OTHER, m, generate_presence=True, only=["mod"])
                run(ctx, lab, g, "members: " + inst, "members", {}, [names, names], site=SITE)
                run(ctx, lab, g, "what is emitted: " + inst, "read", {}, [out, out, out, names], site=SITE)


for _w in ("of-a-module", "of-a-container", "of-an-entry"):
    order(_w)
