"""C03: built-in types have their RFC 6020 value spaces."""

from .common import *

explain("C03", "For every built-in type the class emitted for a leaf and the class the generator itself uses are interpreted on a symbolic datum and compared with the RFC 6020 value space at every region boundary.")

INTS = {"int8": (-2**7, 2**7 - 1, 8), "int16": (-2**15, 2**15 - 1, 16), "int32": (-2**31, 2**31 - 1, 32), "int64": (-2**63, 2**63 - 1, 64),
        "uint8": (0, 2**8 - 1, 8), "uint16": (0, 2**16 - 1, 16), "uint32": (0, 2**32 - 1, 32), "uint64": (0, 2**64 - 1, 64)}
EDGES = sorted({e + d for lo, hi, _ in INTS.values() for e in (lo, hi) for d in (-1, 0, 1)} | {0, 1, -1})


@rule("C03", "integer-value-space", minimum=16)
def ints(ctx):
    lab = ctx.lab()
    site = lab.site(PB + "")
    D = setter(["x_" + t for t in INTS]) + "\nfrom pyangbind.plugin.pybind import class_map\n"
    for t in INTS:
        D += "def gen_%s(v):\n    return class_map['%s']['pytype'](v)\n" % (t, t)
        D += "def size_%s(v):\n    m = mod()\n    m.x_%s = 1\n    return m.x_%s._restricted_int_size, class_map['%s']['pytype']._restricted_int_size\n" % (t, t, t, t)
        D += "def text_%s(v):\n    m = mod()\n    m.x_%s = str(v)\n    return m.x_%s\n" % (t, t, t)
    lab.it.load("pyangbind.plugin.pybind")
    g = lab.bind(D, M("mod", *[leaf("x_" + t, t) for t in INTS]))
    for t, (lo, hi, bits) in INTS.items():
        ok = lambda v, lo=lo, hi=hi: lo <= v <= hi  # noqa: E731
        run(ctx, lab, g, t + " emitted", "set_x_" + t, {"v": "int"}, accepts(ok), vals(*EDGES), site)
        run(ctx, lab, g, t + " while generating", "gen_" + t, {"v": "int"}, accepts(ok, exc=("ValueError", "TypeError")), vals(*EDGES), site)
        run(ctx, lab, g, t + " as text", "text_" + t, {"v": "int"}, accepts(ok), vals(*EDGES), site)
        run(ctx, lab, g, t + " size", "size_" + t, {"v": "int"}, (bits, bits), ({},), site)


SP = {"false": False, "False": False, "0": False, "true": True, "True": True, "1": True}


@rule("C03", "boolean", minimum=4)
def booleans(ctx):
    lab = ctx.lab()
    site = lab.site(YT + "YANGBool.__new__")
    D = '''
def s(v):
    m = mod()
    m.b = v
    return int(m.b), bool(m.b), str(m.b)
def e(v):
    m = mod()
    m.e = v
    return int(m.e), bool(m.e), str(m.e)
def none():
    return int(mod().b), str(YANGBool()), repr(YANGBool(True)), repr(YANGBool("false"))
'''
    g = lab.bind(D, M("mod", leaf("b", "boolean"), leaf("e", "empty")))

    def want(r, rep):
        v = rep["v"]
        if isinstance(v, str):
            w = SP.get(v)
        else:
            w = bool(v) if v in (0, 1) else None
        if w is None:
            return isinstance(r, Raised) and r.name == "ValueError"
        if isinstance(r, Raised):
            return False
        return same(r, (int(w), w, str(w)))

    for fn, what in (("s", "boolean"), ("e", "empty")):
        run(ctx, lab, g, what + " from text", fn, {"v": "str"}, want, vals("true", "True", "false", "False", "0", "1", "", "TRUE", "yes", "no", "on", "off", "t", "2", "FALSE", " true"), site)
        run(ctx, lab, g, what + " from int", fn, {"v": "int"}, want, vals(0, 1, 2, -1, 10), site)
        for b in (True, False):
            run(ctx, lab, g, "%s from %s" % (what, b), fn, {"v": ("const", b)}, (int(b), b, str(b)), ({},), site)
    run(ctx, lab, g, "unset boolean", "none", {}, (0, "False", "True", "False"), ({},), site)


@rule("C03", "other-types", minimum=4)
def others(ctx):
    """string, decimal64, binary: what comes in comes out, in the type's own form."""
    lab = ctx.lab()
    D = '''
def s(v):
    m = mod()
    m.s = v
    return m.s
def d(v):
    m = mod()
    m.d = v
    return m.d
def b(v):
    m = mod()
    m.b = v
    return m.b
'''
    g = lab.bind(D, M("mod", leaf("s", "string"), leaf("d", typ("decimal64", S("fraction-digits", "2"))), leaf("b", "binary")))
    run(ctx, lab, g, "string", "s", {"v": "str"}, P("v"), ({},), lab.site(YT + "YANGDynClass"))
    run(ctx, lab, g, "binary from bytes", "b", {"v": ("const", b"\x00\xff")}, b"\x00\xff", ({},), lab.site(YT + "YANGBinary.__new__"))
    run(ctx, lab, g, "binary from base64 text", "b", {"v": ("const", "AP8=")}, b"\x00\xff", ({},), lab.site(YT + "YANGBinary.__new__"))
    run(ctx, lab, g, "binary refuses numbers", "b", {"v": "int"}, Raised("ValueError"), ({},), lab.site(YT + "YANGBinary.__new__"))
    import decimal
    for x, w in (("1.25", "1.25"), ("1.256", "1.26"), ("-0.1", "-0.10"), ("7", "7.00")):
        run(ctx, lab, g, "decimal64 " + x, "d", {"v": ("const", x)}, decimal.Decimal(w), ({},), lab.site(YT + "RestrictedPrecisionDecimalType"))


BUILTIN = ("binary", "bits", "boolean", "decimal64", "empty", "enumeration", "identityref", "instance-identifier", "int8", "int16", "int32", "int64", "leafref", "string", "uint8", "uint16", "uint32", "uint64", "union")


@rule("C03", "every-type-has-an-entry", minimum=15)
def coverage(ctx):
    """A leaf of every built-in type can be generated."""
    args = {"bits": typ("bits", S("bit", "a", S("position", "0"))), "decimal64": typ("decimal64", S("fraction-digits", "2")), "enumeration": typ("enumeration", S("enum", "a")),
            "identityref": typ("identityref", S("base", "idb")), "leafref": typ("leafref", S("path", "../k")), "union": typ("union", typ("string"), typ("int8"))}
    lab = ctx.lab()
    site = lab.site(PB + "build_elemtype")
    for t in BUILTIN:
        try:
            outs = lab.emit(M("mod", S("identity", "idb"), S("identity", "idd", S("base", "idb")), leaf("k", "string"), leaf("x", args.get(t, typ(t)))))
        except Exception as e:
            ctx.und(t, "%s: %s" % (type(e).__name__, str(e)[:150]), site)
            continue
        if outs and all(isinstance(v, Raise) for _, v in outs):
            ctx.bad(t, "the generator fails on a leaf of type %s: %s" % (t, pp(outs[0][1])[:200]), site)
        elif any(isinstance(v, Raise) for _, v in outs):
            ctx.und(t, "generator may fail", site)
        else:
            ctx.ok(t, "a leaf of the type is emitted", site)
