"""Calls: binding, inlining, built-in models."""

import ast
import builtins as _bi

from .interp import *
from .objects import PURE_METHODS, STR_METHODS, dedupe

_SAFE = {"len", "isinstance", "str", "repr", "hasattr", "getattr", "type", "print", "bool", "id", "callable"}


class Calls(object):
    # ------------------------------------------------------------ call expressions
    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.getname("super", st, fr) is T("exttype", "super"):
            return self.do_super(n, st, fr)
        exprs = [n.func]
        for a in n.args:
            exprs.append(a.value if isinstance(a, ast.Starred) else a)
        for k in n.keywords:
            exprs.append(k.value)
        out = []
        for s, vals in self.evals(exprs, st, fr):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            fn = vals[0]
            args = []
            i = 1
            for a in n.args:
                if isinstance(a, ast.Starred):
                    v = vals[i]
                    if isinstance(v, Term) and v.op not in ("tuple", "list", "tuplegen"):
                        args.append(Splice(v))
                    else:
                        args.extend(self.spread(s, v))
                else:
                    args.append(vals[i])
                i += 1
            kw = []
            for k in n.keywords:
                v = vals[i]
                i += 1
                if k.arg is None:
                    if isinstance(v, Ref) and isinstance(s.h(v), HDict):
                        for it in s.h(v).items:
                            if isinstance(it, tuple) and isinstance(it[0], C):
                                kw = [x for x in kw if x[0] != it[0].v] + [(it[0].v, it[1])]
                            elif isinstance(it, Splice):
                                kw.append(("**", it.term))
                            elif isinstance(it, tuple):
                                kw.append(("**", T("dict", it)))
                            else:
                                kw.append(("**", T("dict", it)))
                    else:
                        kw.append(("**", v))
                else:
                    kw.append((k.arg, v))
            kw = tuple(sorted(kw, key=lambda x: x[0]))
            out.extend(self.call(s, fn, tuple(args), kw, n, fr))
        return self.merge(out) if len(out) > 1 else out

    def do_super(self, n, st, fr):
        if n.args:
            out = []
            for s, vals in self.evals(n.args, st, fr):
                out.append((s, vals if isinstance(vals, Raise) else T("super", vals[0], vals[1] if len(vals) > 1 else NONE)))
            return out
        cls = None
        f = fr.func
        if fr.mangle:
            for eid in fr.scope:
                e = st.env.get(eid) or {}
                if "$cls:" + fr.mangle in e:
                    cls = e["$cls:" + fr.mangle]
                    break
            if cls is None:
                e = self.base.env.get("m:" + fr.mod, {})
                cls = e.get("$cls:" + fr.mangle)
        selfv = NONE
        if isinstance(f, FuncVal) and f.node.args.args:
            selfv = self.getname(f.node.args.args[0].arg, st, fr)
        return [(st, T("super", cls or C(fr.mangle), selfv))]

    def call(self, st, fn, args, kw, node, fr):
        self.stats["calls"] += 1
        if isinstance(fn, FuncVal):
            return self.call_func(st, fn, args, kw, node, fr)
        if isinstance(fn, Bound):
            if isinstance(fn.fn, FuncVal):
                return self.call_func(st, fn.fn, (fn.obj,) + tuple(args), kw, node, fr, bound=fn)
        if isinstance(fn, ClassVal):
            return self.instantiate(st, fn, args, kw, node, fr)
        if isinstance(fn, Term):
            if fn.op in ("ext", "exttype"):
                h = self.hooks.get(fn.args[0])
                if h is not None:
                    r = h(self, st, fn, args, kw, self.site(node, fr))
                    if r is not None:
                        return r
                return self.call_ext(st, fn, args, kw, node, fr)
            if fn.op == "method":
                return self.call_method(st, fn, args, kw, node, fr)
            if fn.op == "attr":
                return self.call_attr(st, fn, args, kw, node, fr)
            if fn.op == "partial":
                f2, a2, k2 = fn.args
                return self.call(st, f2, a2 + tuple(args), tuple(sorted(dict(k2, **dict(kw)).items())), node, fr)
            if fn.op == "decorated" and isinstance(fn.args[0], FuncVal):
                pass
        return self.opaque_call(st, fn, args, kw, node, fr)

    def opaque_call(self, st, fn, args, kw, node, fr, pure=False, exc=None, raises=True):
        fa = tuple(self.freeze(st, a) if isinstance(a, V) else self.freeze_entry(st, a, 0) for a in args)
        fk = tuple((k, self.freeze(st, v)) for k, v in kw)
        f2 = self.freeze(st, fn) if isinstance(fn, Bound) else (T("attr", self.freeze(st, fn.args[0]), fn.args[1]) if isinstance(fn, Term) and fn.op == "method" else fn)
        t = T("call", f2, fa, fk)
        v = self.P(t)
        out = []
        if self.trydepth and raises:
            a = T("raises", t)
            d = decide(st.facts, a)
            if d is not False:
                s2 = st if d else st.clone()
                if assume(s2, a, True):
                    if not pure:
                        s2.emit("callx", (f2, fa, fk), self.site(node, fr))
                    out.append((s2, Raise(exc or T("excof", t))))
                if d:
                    return out
                assume(st, a, False)
        if not pure:
            st.emit("call", (f2, fa, fk), self.site(node, fr))
        out.append((st, v))
        return out

    def instantiate(self, st, cv, args, kw, node, fr):
        h = self.hooks.get(cv.module + ":" + cv.qual)
        if h is not None:
            r = h(self, st, cv, args, kw, self.site(node, fr))
            if r is not None:
                return r
        if self.is_exc_class(cv):
            return [(st, T("exc", cv, tuple(self.freeze(st, a) for a in args if isinstance(a, V))))]
        if cv.qual in self.inline_new or cv.name in self.inline_new:
            return self.construct(st, cv, args, kw, node, fr)
        fa = tuple(self.freeze(st, a) if isinstance(a, V) else self.freeze_entry(st, a, 0) for a in args)
        fk = tuple((k, self.freeze(st, v)) for k, v in kw)
        out = []
        if self.trydepth:
            a = T("raises", T("new", cv, fa, fk))
            d = decide(st.facts, a)
            if d is not False:
                s2 = st if d else st.clone()
                if assume(s2, a, True):
                    out.append((s2, Raise(T("excof", T("new", cv, fa, fk)))))
                if d:
                    return out
                assume(st, a, False)
        o = T("new", cv, fa, fk, C(st.fresh()))
        st.emit("new", (cv, fa, fk), self.site(node, fr))
        out.append((st, o))
        return out

    def construct(self, st, cv, args, kw, node, fr):
        """Full object construction: __new__, then __init__ on what it returned."""
        newf = self.class_lookup(st, cv, "__new__")
        if isinstance(newf, FuncVal):
            outs = self.call_func(st, newf, (cv,) + tuple(args), kw, node, fr)
        else:
            outs = [(st, T("obj", C(st.fresh()), cv))]
        res = []
        for s, o in outs:
            if isinstance(o, Raise) or self.typeof(o) is not cv:
                res.append((s, o))
                continue
            init = self.class_lookup(s, cv, "__init__")
            if isinstance(init, FuncVal):
                for s2, r in self.call_func(s, init, (o,) + tuple(args), kw, node, fr):
                    res.append((s2, r if isinstance(r, Raise) else o))
            else:
                res.append((s, o))
        return self.merge(res)

    # ------------------------------------------------------------ inlining
    def is_opaque(self, f):
        q = f.module + ":" + f.qual
        if q in self.opaque or f.qual in self.opaque:
            return True
        if self.opaque_pred is not None and self.opaque_pred(f):
            return True
        return False

    def call_func(self, st, f, args, kw, node, fr, bound=None):
        h = self.hooks.get(f.module + ":" + f.qual)
        if h is not None:
            r = h(self, st, bound or f, args[1:] if bound is not None else args, kw, self.site(node, fr))
            if r is not None:
                return r
        deep = sum(1 for x in self.stack if x is f.node) >= self.recurse.get(f.qual, self.recurse.get(f.name, 1)) or len(self.stack) > self.MAXDEPTH + sum(self.recurse.values())
        if deep and self.strict:
            raise AnalysisLimit("inlining depth reached at %s" % f.qual)
        if self.is_opaque(f) or deep:
            if bound is not None:
                return self.opaque_call(st, bound, args[1:], kw, node, fr)
            return self.opaque_call(st, f, args, kw, node, fr)
        return self.inline(st, f, args, kw, node, fr)

    def inline(self, st, f, args, kw, node, fr):
        n = f.node
        self.stats["functions"].add(f.module + ":" + f.qual)
        eid = ("f", st.fresh())
        bound, err = self.bind(st, f, args, kw)
        if err is not None:
            return [(st, Raise(T("exc", T("exttype", "TypeError"), (C(err),))))]
        st.env[eid] = bound
        locs, glob, nonl = self.fn_names(n)
        nfr = Frame((eid,) + f.scope, f.module, f.cls, f, locs, glob, nonl)
        gen = isinstance(n, ast.FunctionDef) and has_yield(n)
        acc = None
        if gen:
            acc = st.alloc(HList("list", ()))
            st.setvar(eid, "$yield", acc)
        self.stack.append(n)
        try:
            if isinstance(n, ast.Lambda):
                outs = [(s, v if isinstance(v, Raise) else ("ret", v)) for s, v in self.eval(n.body, st, nfr)]
            else:
                outs = self.exec_block(n.body, st, nfr)
        finally:
            self.stack.pop()
        res = []
        for s, sig in outs:
            if eid not in s.cap:
                s.env.pop(eid, None)
            if sig is None or sig == ("break",) or sig == ("cont",):
                res.append((s, acc if gen else NONE))
            elif isinstance(sig, Raise):
                res.append((s, sig))
            else:
                res.append((s, acc if gen else sig[1]))
        return self.merge(res)

    def fn_names(self, n):
        cache = self.__dict__.setdefault("_fn", {})
        r = cache.get(id(n))
        if r is None:
            r = stored_names(n.body if isinstance(n.body, list) else [n.body])
            cache[id(n)] = r
        return r

    def bind(self, st, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwd = {}
        stars = []
        for k, v in kw:
            if k == "**":
                stars.append(v)
            else:
                kwd[k] = v
        i = 0
        star_src = None
        for nm in names:
            if args and not isinstance(args[0], (Gen, Splice)):
                env[nm] = args.pop(0)
            elif args and star_src is None:
                star_src = args[0]
                if nm in kwd:
                    env[nm] = kwd.pop(nm)
                    continue
                if a.vararg is None or len(args) > 1 or True:
                    src = star_src.term if isinstance(star_src, Splice) else T("gens", star_src)
                    env[nm] = T("item", src, C(i))
                    i += 1
            elif nm in kwd:
                env[nm] = kwd.pop(nm)
        ndef = len(f.defaults)
        for j, nm in enumerate(names):
            if nm in env:
                continue
            if nm in kwd:
                env[nm] = kwd.pop(nm)
                continue
            k = j - (len(names) - ndef)
            if k >= 0:
                env[nm] = T("kwopt", stars[0], C(nm), f.defaults[k]) if stars else f.defaults[k]
            elif stars:
                env[nm] = T("item", stars[0], C(nm))
            else:
                return env, "missing argument %s" % nm
        for x in a.kwonlyargs:
            if x.arg in kwd:
                env[x.arg] = kwd.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = T("kwopt", stars[0], C(x.arg), f.kwdefaults[x.arg]) if stars else f.kwdefaults[x.arg]
            else:
                env[x.arg] = T("missing", C(x.arg))
        if a.vararg is not None:
            if len(args) == 1 and isinstance(args[0], Splice):
                env[a.vararg.arg] = args[0].term
            elif any(isinstance(x, (Gen, Splice)) for x in args):
                env[a.vararg.arg] = T("tuplegen", *args)
            else:
                env[a.vararg.arg] = tup(args)
        elif args and not isinstance(args[0], (Gen, Splice)):
            return env, "too many arguments"
        if a.kwarg is not None:
            items = tuple((C(k), v) for k, v in sorted(kwd.items(), key=lambda x: x[0])) + tuple(Splice(v) for v in stars)
            env[a.kwarg.arg] = st.alloc(HDict(items))
        elif kwd:
            return env, "unexpected keyword argument %s" % sorted(kwd)[0]
        return env, None

    def entry_args(self, st, f, given):
        """Symbolic arguments for analysing f as an entry point."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = []
        for nm in names:
            args.append(given.get(nm, T("param", nm)))
        kw = [(x.arg, given.get(x.arg, T("param", x.arg))) for x in a.kwonlyargs]
        if a.vararg is not None:
            v = given.get("*" + a.vararg.arg, given.get("*", T("varargs", a.vararg.arg)))
            if isinstance(v, Term) and v.op == "tuple":
                args.extend(v.args)
            else:
                args.append(Splice(v))
        if a.kwarg is not None:
            v = given.get("**" + a.kwarg.arg, given.get("**", T("kwargs", a.kwarg.arg)))
            if isinstance(v, dict):
                kw.extend(v.items())
            else:
                kw.append(("**", v))
        return tuple(args), tuple(sorted(kw, key=lambda x: x[0]))

    def run(self, f, given=None, st=None, facts=None):
        """Analyse f from symbolic arguments: [(state, value | Raise)]"""
        given = given or {}
        s = (st or self.base).clone()
        if st is None:
            s.events = ()
        s.ctr = max(s.ctr, 10_000_000)
        for a, b in (facts or ()):
            if not assume(s, a, b):
                return []
        obj = None
        if isinstance(f, Bound):
            obj = f.obj
            f = f.fn
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if obj is not None and names:
            given = dict(given)
            given[names[0]] = obj
        args, kw = self.entry_args(s, f, given)
        n = f.node
        fr = Frame(("m:" + f.module,), f.module)
        self.stack = []
        self.active_loops = []
        self.trydepth = 0
        eid = ("f", s.fresh())
        b, err = self.bind(s, f, args, kw)
        if err:
            raise AnalysisBroken("%s: %s" % (f.qual, err))
        s.env[eid] = b
        locs, glob, nonl = self.fn_names(n)
        nfr = Frame((eid,) + f.scope, f.module, f.cls, f, locs, glob, nonl)
        self.stats["functions"].add(f.module + ":" + f.qual)
        self.stack.append(n)
        try:
            if isinstance(n, ast.Lambda):
                outs = [(x, v if isinstance(v, Raise) else ("ret", v)) for x, v in self.eval(n.body, s, nfr)]
            else:
                outs = self.exec_block(n.body, s, nfr)
        finally:
            self.stack.pop()
        res = []
        for x, sig in outs:
            if isinstance(sig, Raise):
                res.append((x, sig))
            elif sig is None:
                res.append((x, NONE))
            else:
                res.append((x, sig[1]))
        self.stats["paths"] += len(res)
        return res
