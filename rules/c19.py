"""C19: free text in a YANG module cannot alter or break the generated code."""

import ast
import itertools

from .common import *

explain("C19", "The generator is evaluated with the text left open (a symbol) at each place where a module may hold free text: descriptions of every kind of node, defaults, patterns, lengths, enumeration and bit names, namespaces, reference paths, extension arguments, units, in leaves, leaf-lists, unions, typedefs and split classes. What it emits is then a sequence of constant code and of terms over the text, per path through the generator. Two things are decided on it: whether each term is a literal (repr of the text) or the text with backslash and quote escaped within a literal, which holds for every text; and for every text of up to three characters over the characters that have a meaning to Python's grammar, all of up to five quotes and backslashes, and further ones, that the emitted code parses to exactly the tree that harmless text gives, with that text in place of the harmless one.")

SITE = PB + "get_children"
HARMLESS = "Zbenign"
TEXTS = ["".join(t) for n in (1, 2, 3) for t in itertools.product("'\"\\\n\r#a", repeat=n)]
TEXTS += ["".join(t) for n in (4, 5) for t in itertools.product("\"\\", repeat=n)] + ["".join(t) for t in itertools.product("'\"", repeat=4)]
TEXTS += ["%s", "%", "%%", "%(a)s", "{}", "{0}", "{a}", "{", "}", "\\N{DASH}", "\\N", "\\u12", "\\x", "\\x4", "\\U0001", "\\0", "\\8", "\\n", "\\\\n", "a\\", "a\"", "\"\"\"a", "a\"\"\"", "a\"\"\"\nimport os\n\"\"\"", "'+str(1)+'", "\"+str(1)+\"", "')", "\")", "\"\"\")", "é", "中文", "\u2028", "\u00a0", "\t", "a\tb", "a b", " a", "a ",
          "a\n  b", "a\r\nb", "\r", "\x7f", "\x85", "]", ")", "},", "'''", "\"'\"'\"", "None", "True", "0", "1.5", "\ufeff", "`", "$a", "&amp;", "<a>", "a;b", "\\d+", "[^\"']*", "\\p{L}", "(?!x)"]


def code_in(v):
    """A message that holds code: it is a literal, what it says is for readers only."""
    return "YANGDynClass(" in v


def differs(a, b, text):
    """Where tree b is not tree a with the text in place of the harmless one, or None."""
    if type(a) is not type(b):
        return "%s instead of %s" % (type(b).__name__, type(a).__name__)
    if isinstance(a, ast.Constant):
        if isinstance(a.value, str) and isinstance(b.value, str):
            if code_in(a.value) and code_in(b.value) or a.value.replace(HARMLESS, text) == b.value:
                return None
            return "the literal %r instead of %r" % (b.value[:120], a.value.replace(HARMLESS, text)[:120])
        return None if type(a.value) is type(b.value) and a.value == b.value else "%r instead of %r" % (b.value, a.value)
    if isinstance(a, ast.AST):
        for f in a._fields:
            r = differs(getattr(a, f, None), getattr(b, f, None), text)
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%d parts instead of %d" % (len(b), len(a))
        for x, y in zip(a, b):
            r = differs(x, y, text)
            if r:
                return r
        return None
    return None if a == b else "%r instead of %r" % (b, a)


V = P("v")
D = S("description", V)
RES = typ("string", S("length", "0..9"))
X = {"use_xpathhelper": True}
DESC = {
    "description of the module": ([D, leaf("a", "string")], {}),
    "description of a leaf": ([leaf("a", "string", D)], {}),
    "description of a leaf-list": ([S("leaf-list", "a", typ("string"), D)], {}),
    "description of a container": ([S("container", "c", D, leaf("a", "string"))], {}),
    "description of a presence container": ([S("container", "c", S("presence", "p"), D)], {"generate_presence": True}),
    "description of a list": ([S("list", "l", S("key", "k"), D, leaf("k", "string"))], {}),
    "description of a key": ([S("list", "l", S("key", "k"), leaf("k", "string", D))], {}),
    "description in a case": ([S("choice", "ch", S("case", "o", leaf("a", "string", D)))], {}),
    "description of a reference": ([leaf("t", "string"), leaf("a", typ("leafref", S("path", "/t")), D)], X),
    "description of a read-only leaf": ([leaf("a", "string", S("config", "false"), D)], {}),
    "description of a union": ([leaf("a", typ("union", typ("int8"), typ("string")), D)], {}),
    "argument of presence": ([S("container", "c", S("presence", V), leaf("a", "string"))], {"generate_presence": True}),
    "units": ([leaf("a", "string", S("units", V))], {}),
    "reference": ([leaf("a", "string", S("reference", V))], {}),
    "contact of the module": ([S("contact", V), S("organization", "o"), leaf("a", "string")], {}),
    "description of an enum": ([leaf("a", typ("enumeration", S("enum", "x", D)))], {}),
}
DEFAULT = {
    "default of a string": ([leaf("a", "string", S("default", V))], {}),
    "default of a restricted string": ([leaf("a", RES, S("default", V))], {}),
    "default of a leaf-list": ([S("leaf-list", "a", typ("string"), S("default", V))], {}),
    "default of a typedef": ([S("typedef", "t", typ("string"), S("default", V)), leaf("a", "t")], {}),
    "default of a typedef of a typedef": ([S("typedef", "t", typ("string"), S("default", V)), S("typedef", "u", typ("t")), S("container", "c", leaf("a", "u"))], {}),
    "default of a leaf of a typedef": ([S("typedef", "t", RES), leaf("a", "t", S("default", V))], {}),
    "default of a union": ([leaf("a", typ("union", typ("string"), typ("int8")), S("default", V))], {}),
    "default in a case": ([S("choice", "ch", S("case", "o", leaf("a", "string", S("default", V))))], {}),
    "default of an instance-identifier": ([leaf("a", "instance-identifier", S("default", V))], {}),
}
TYPE = {
    "pattern": ([leaf("a", typ("string", S("pattern", V)))], {}),
    "second pattern": ([leaf("a", typ("string", S("pattern", "a.*"), S("pattern", V)))], {}),
    "pattern of a typedef": ([S("typedef", "t", typ("string", S("pattern", V))), leaf("a", "t")], {}),
    "pattern upon a typedef": ([S("typedef", "t", typ("string", S("pattern", "b.*"))), leaf("a", typ("t", S("pattern", V)))], {}),
    "pattern of a leaf-list": ([S("leaf-list", "a", typ("string", S("pattern", V)))], {}),
    "pattern in a union": ([leaf("a", typ("union", typ("int8"), typ("string", S("pattern", V))))], {}),
    "pattern of a key": ([S("list", "l", S("key", "k"), leaf("k", typ("string", S("pattern", V))))], {}),
    "length and pattern": ([leaf("a", typ("string", S("length", "1..4"), S("pattern", V)))], {}),
    "message of a pattern": ([leaf("a", typ("string", S("pattern", "x", S("error-message", V))))], {}),
    "enum": ([leaf("a", typ("enumeration", S("enum", V), S("enum", "other", S("value", "4"))))], {}),
    "enum with a value": ([leaf("a", typ("enumeration", S("enum", V, S("value", "7"))))], {}),
    "enum of a typedef": ([S("typedef", "t", typ("enumeration", S("enum", V))), leaf("a", "t")], {}),
    "enum in a union": ([leaf("a", typ("union", typ("enumeration", S("enum", V)), typ("int8")))], {}),
    "enum of a leaf-list": ([S("leaf-list", "a", typ("enumeration", S("enum", V)))], {}),
    "default of an enumeration": ([leaf("a", typ("enumeration", S("enum", V)), S("default", V))], {}),
}
REST = {
    "path of a reference": ([leaf("a", typ("leafref", S("path", V)))], X),
    "path of a leaf-list of references": ([S("leaf-list", "a", typ("leafref", S("path", V)))], X),
    "path of a reference in a union": ([leaf("a", typ("union", typ("leafref", S("path", V)), typ("int8")))], X),
    "path of a typedef": ([S("typedef", "t", typ("leafref", S("path", V))), leaf("a", "t")], X),
    "path without a path helper": ([leaf("a", typ("leafref", S("path", V)))], {}),
    "argument of an extension": ([leaf("a", "string", S(("ext", "x"), V))], {"pybind_interested_exts": ["ext"]}),
    "argument of an extension of a container": ([S("container", "c", S(("ext", "x"), V), leaf("a", "string"))], {"pybind_interested_exts": ["ext"]}),
    "argument of an extension of a list": ([S("list", "l", S("key", "k"), S(("ext", "x"), V), leaf("k", "string"))], {"pybind_interested_exts": ["ext"]}),
    "argument of an extension of a leaf-list": ([S("leaf-list", "a", typ("string"), S(("ext", "x"), V))], {"pybind_interested_exts": ["ext"]}),
    "argument of must": ([leaf("a", "string", S("must", V))], {}),
    "argument of when": ([S("container", "c", S("when", V), leaf("a", "string"))], {}),
    "unique of a list": ([S("list", "l", S("key", "k"), S("unique", V), leaf("k", "string"))], {}),
}


def symbols(t):
    """(term, within repr, within the escaping of documentation strings) of each occurrence of the text."""
    if t == V:
        yield None
    elif isinstance(t, Term):
        if t.op == "repr":
            yield "literal"
            return
        if t.op == "call" and escapes(t):
            yield "escaped"
            return
        for x in t.args:
            for y in (symbols(x) if isinstance(x, V_) else ()):
                yield y


def escapes(t):
    """replace() of backslashes first and of double quotes after that."""
    chain = []
    while isinstance(t, Term) and t.op == "call" and isinstance(t.args[0], Term) and t.args[0].op in ("attr", "method") and t.args[0].args[1] == C("replace") and len(t.args[1]) == 2:
        if not all(isinstance(x, C) for x in t.args[1]):
            return False
        chain.append(tuple(x.v for x in t.args[1]))
        t = t.args[0].args[0]
    chain.reverse()
    return t == V and ("\\", "\\\\") in chain and ('"', '\\"') in chain and chain.index(("\\", "\\\\")) == 0


V_ = type(C(1)).__mro__[-2] if len(type(C(1)).__mro__) > 2 else object


def place(ctx, lab, name, mods, opts, texts=TEXTS):
    outs = lab.emit(*mods, **opts)
    site = lab.site(SITE)

    def code(text):
        env = {V: text}
        d, p = outcomes_at(outs, env)
        if p or not d:
            raise Undecided("paths not told apart for %r" % text)
        res = []
        for s, v in d:
            if isinstance(v, Raise):
                raise Undecided("the generator stops: %s" % pp(v.exc)[:100])
            if isinstance(v, dict):
                v = T("str", *[x for k in sorted(v) for x in (v[k], C("\n"))])
            try:
                res.append(value_at(v, env))
            except (Unknown, Raises) as e:
                raise Undecided("emitted text not known for %r: %s" % (text, str(e)[:100]))
        if any(x != res[0] for x in res):
            raise Undecided("emitted text differs by path")
        return res[0]

    base = ast.parse(code(HARMLESS))
    bad, n = [], 0
    for t in texts:
        src = code(t)
        n += 1
        try:
            tree = ast.parse(src)
        except (SyntaxError, ValueError) as e:
            bad.append("with the text %r the emitted code does not parse: %s: %s" % (t, e, (getattr(e, "text", None) or "").strip()[:120]))
            continue
        r = differs(base, tree, t)
        if r:
            bad.append("with the text %r the emitted code has %s" % (t, r))
    if bad:
        ctx.bad(name, "%d of %d texts: %s" % (len(bad), n, bad[0]), site, "\n".join(bad[:10]))
        return
    ctx.ok(name, "%d texts, %d paths through the generator" % (n, len(outs)), site)
    kinds = set()
    for s, v in outs:
        if isinstance(v, Term):
            kinds |= set(symbols(v))
    if None not in kinds:
        ctx.ok(name + ", any text", "the text is emitted %s on every path" % (" or ".join(sorted(k for k in kinds if k)) or "nowhere"), site)


def group(rname, places, minimum):
    @rule("C19", rname, minimum, limit=250)
    def _(ctx):
        lab = ctx.lab()
        for name, (subs, opts) in places.items():
            with ctx.instance(name, lab.site(SITE)):
                place(ctx, lab, name, [M("mod", *subs)], opts)


group("descriptions", DESC, 16)
group("defaults", DEFAULT, 9)
group("types", TYPE, 15)
group("elsewhere", REST, 12)


@rule("C19", "namespaces-and-modules", 4, limit=250)
def modules(ctx):
    """Namespaces of the module, of an augmenting one, in identities; rpc, notification; split classes."""
    lab = ctx.lab()
    uri = [t for t in TEXTS if not set(t) & set("\n\r\" \\")] + ["urn:it's", "urn:'", "urn:a'b'c", "http://a/b?c=d&e=('f')", "urn:%27", "urn:a#b"]
    one = lambda *subs, **kw: M("mod", *subs, **kw)
    cases = {
        "namespace": ([one(leaf("a", "string"), S("container", "c", leaf("b", "int8")), S("list", "l", S("key", "k"), leaf("k", "string")), ns=V)], {}, uri),
        "namespace of an augmenting module": ([M("other", prefix="o", ns=V), one(S("container", "c", leaf("a", "string"), S("leaf", "b", typ("string"), aug="other")))], {"only": ["mod"]}, uri),
        "namespace with identities": ([one(S("identity", "i"), S("identity", "j", S("base", "i")), leaf("a", typ("identityref", S("base", "i"))), ns=V)], {}, uri),
        "description of an identity": ([one(S("identity", "i"), S("identity", "j", S("base", "i"), D), leaf("a", typ("identityref", S("base", "i"))))], {}, TEXTS),
        "description of an rpc": ([one(leaf("a", "string"), S("rpc", "r", D, S("input", "input", D, leaf("x", "string", D)), S("output", "output", leaf("y", "string"))))], {"build_rpcs": True}, TEXTS),
        "description of a notification": ([one(leaf("a", "string"), S("notification", "n", D, leaf("x", "string", D)))], {"build_notifications": True}, TEXTS),
        "description, split classes": ([one(D, S("container", "c", D, leaf("a", "string", D)))], {"split_class_dir": "/pk"}, TEXTS),
        "default, split classes": ([one(S("container", "c", leaf("a", "string", S("default", V))))], {"split_class_dir": "/pk"}, TEXTS),
        "default, all options": ([one(S("container", "c", leaf("a", "string", S("default", V), D)))], {"use_xpathhelper": True, "use_extmethods": True, "generate_presence": True, "build_rpcs": True, "build_notifications": True}, TEXTS),
    }
    for name, (mods, opts, texts) in cases.items():
        with ctx.instance(name, lab.site(SITE)):
            place(ctx, lab, name, mods, dict(opts), texts)


@rule("C19", "values-held", 10, limit=150)
def held(ctx):
    """What the classes hold in the end: defaults, accepted enumeration values, patterns, namespaces."""
    lab = ctx.lab()
    texts = ["it's", "a\"b", "a\\b", "a\nb", "\\n", "\"\"\"", "'''", "a\\", "%s", "{0}", "é", "' + x + '"]
    kids = []
    for i, t in enumerate(texts):
        kids += [leaf("d%d" % i, "string", S("default", t), S("description", t)), leaf("e%d" % i, typ("enumeration", S("enum", t), S("enum", "x")), S("default", t)), S("leaf-list", "l%d" % i, typ("string"), S("default", t))]
    src = "".join("def f%d():\n    m = mod()\n    m.e%d = %r\n    return m.d%d._default, m.e%d, m.e%d._default\n" % (i, i, t, i, i, i) for i, t in enumerate(texts))
    g = lab.bind(src, M("mod", *kids))
    for i, t in enumerate(texts):
        run(ctx, lab, g, repr(t), "f%d" % i, {}, (t, t, t), site=SITE)
