"""Statements."""

import ast
import builtins as _bi

from .interp import *


_IOP = {"Add": "__iadd__", "Sub": "__isub__", "BitOr": "__ior__", "BitAnd": "__iand__", "BitXor": "__ixor__", "Mult": "__imul__"}


class Stmts(object):
    def exec_block(self, stmts, st, fr):
        outs = [(st, None)]
        for node in stmts:
            nxt = []
            done = []
            for s, sig in outs:
                if sig is None:
                    nxt.append(s)
                else:
                    done.append((s, sig))
            if not nxt:
                return outs
            res = done
            for s in nxt:
                res = res + self.exec_stmt(node, s, fr)
            outs = self.merge(res)
        return outs

    def exec_stmt(self, node, st, fr):
        m = getattr(self, "x_" + type(node).__name__, None)
        if m is None:
            return [(st, None)]
        return m(node, st, fr)

    # ------------------------------------------------------------ simple statements
    def x_Pass(self, n, st, fr):
        return [(st, None)]

    def x_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        out = []
        for s, v in self.eval(n.value, st, fr):
            out.append((s, v if isinstance(v, Raise) else None))
        return out

    def x_Assign(self, n, st, fr):
        out = []
        for s, v in self.eval(n.value, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nx = []
                for s2, sig in cur:
                    if sig is not None:
                        nx.append((s2, sig))
                    else:
                        nx.extend(self.assign(t, v, s2, fr))
                cur = nx
            out.extend(cur)
        return out

    def x_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, None)]
        return self.x_Assign(ast.Assign(targets=[n.target], value=n.value, lineno=n.lineno), st, fr)

    def x_AugAssign(self, n, st, fr):
        load = _as_load(n.target)
        out = []
        for s, a in self.eval(load, st, fr):
            if isinstance(a, Raise):
                out.append((s, a))
                continue
            for s2, b in self.eval(n.value, s, fr):
                if isinstance(b, Raise):
                    out.append((s2, b))
                    continue
                f = self.special(s2, a, _IOP.get(type(n.op).__name__, "")) if hasattr(self, "special") else None
                if f is not None:
                    for s3, r in self.call_func(s2, f, (a, b), (), n, fr):
                        out.extend([(s3, r)] if isinstance(r, Raise) else self.assign(n.target, r, s3, fr))
                    continue
                if isinstance(n.op, ast.Add) and isinstance(a, Ref) and isinstance(s2.h(a), HList):
                    for s3, r in self.list_extend(s2, a, b):
                        out.append((s3, r if isinstance(r, Raise) else None))
                    continue
                if isinstance(n.op, ast.BitOr) and isinstance(a, Ref):
                    meth = "update"
                    for s3, r in self.call(s2, T("method", a, C(meth)), (b,), (), n, fr):
                        out.append((s3, r if isinstance(r, Raise) else None))
                    continue
                for s3, v in self.binop(type(n.op).__name__, a, b, s2, n, fr):
                    if isinstance(v, Raise):
                        out.append((s3, v))
                    else:
                        out.extend(self.assign(n.target, v, s3, fr))
        return out

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st, fr)
            return [(st, None)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = []
            for s, vals in self.unpack(st, v, t.elts, fr):
                if isinstance(vals, Raise):
                    outs.append((s, vals))
                    continue
                cur = [(s, None)]
                for tt, vv in zip(t.elts, vals):
                    nx = []
                    for s2, sig in cur:
                        nx.extend([(s2, sig)] if sig is not None else self.assign(tt, vv, s2, fr))
                    cur = nx
                outs.extend(cur)
            return outs
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.eval(t.value, st, fr):
                if isinstance(o, Raise):
                    out.append((s, o))
                    continue
                out.extend(self.setattr_(s, o, C(self.mangle(t.attr, fr)), v, t, fr))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (o, k) in self.evals2(t.value, t.slice, st, fr):
                if isinstance(o, Raise):
                    out.append((s, o))
                    continue
                out.extend(self.setitem(s, o, k, v, t, fr))
            return out
        return [(st, None)]

    def unpack(self, st, v, elts, fr):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = None
        if isinstance(v, Term) and v.op == "tuple":
            items = list(v.args)
        elif isinstance(v, Ref) and isinstance(st.h(v), HList) and st.h(v).known():
            items = list(st.h(v).items)
        if items is not None and not star and len(items) == n:
            return [(st, items)]
        if items is not None and star and len(items) >= n - 1:
            i = star[0]
            k = len(items) - (n - 1)
            r = st.alloc(HList("list", tuple(items[i:i + k])))
            return [(st, items[:i] + [r] + items[i + k:])]
        if star:
            i = star[0]
            vals = [self.item(st, v, C(j)) for j in range(i)]
            vals.append(T("slice", v, C(i), C(None)))
            vals += [self.item(st, v, C(j - n)) for j in range(i + 1, n)]
            return [(st, vals)]
        vals = [self.item(st, v, C(j)) for j in range(n)]
        return [(st, vals)]

    def setname(self, name, v, st, fr):
        name = self.mangle(name, fr)
        if name in fr.globals:
            st.setvar("m:" + fr.mod, name, v)
            return
        if name in fr.nonlocals:
            for eid in fr.scope[1:]:
                if name in st.env.get(eid, ()):
                    st.setvar(eid, name, v)
                    return
        st.setvar(fr.eid, name, v)

    def x_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ("ret", NONE))]
        return [(s, v if isinstance(v, Raise) else ("ret", v)) for s, v in self.eval(n.value, st, fr)]

    def x_Raise(self, n, st, fr):
        if n.exc is None:
            cur = getattr(st, "env").get(fr.eid, {}).get("$exc")
            return [(st, Raise(cur or T("exc", C("Exception"), ())))]
        out = []
        for s, v in self.eval(n.exc, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            if isinstance(v, ClassVal) or (isinstance(v, Term) and v.op in ("exttype", "ext")):
                v = T("exc", v, ())
            if not (isinstance(v, Term) and v.op == "exc"):
                v = v if isinstance(v, Term) else T("exc", C("Exception"), (v,))
            out.append((s, Raise(v)))
        return out

    def x_Break(self, n, st, fr):
        return [(st, ("break",))]

    def x_Continue(self, n, st, fr):
        return [(st, ("cont",))]

    def x_Global(self, n, st, fr):
        return [(st, None)]

    x_Nonlocal = x_Global

    def x_Import(self, n, st, fr):
        for a in n.names:
            top = a.name.split(".")[0]
            if self.modfile(a.name) and a.name.startswith("pyangbind"):
                self.import_into(st, a.name)
                m = self.modules[a.name]
                if a.asname:
                    st.setvar(fr.eid, a.asname, m)
                else:
                    st.setvar(fr.eid, top, T("ext", top))
            else:
                st.setvar(fr.eid, a.asname or top, T("ext", a.name if a.asname else top))
        return [(st, None)]

    def x_ImportFrom(self, n, st, fr):
        mod = n.module or ""
        if n.level:
            parts = fr.mod.split(".")
            f = self.sources.get(fr.mod, ("", ""))[0]
            up = n.level - (1 if f.endswith("__init__.py") else 0)
            base = parts[: len(parts) - up] if up else parts
            mod = ".".join(base + ([n.module] if n.module else []))
        if mod == "__future__":
            return [(st, None)]
        for a in n.names:
            nm = a.asname or a.name
            if mod in self.virtual or mod + "." + a.name in self.virtual:
                sub = mod + "." + a.name
                if sub in self.virtual:
                    self.import_into(st, sub)
                    st.setvar(fr.eid, nm, self.modules[sub])
                    continue
                v = st.env.get("m:" + mod, {}).get(a.name)
                if v is None:
                    return [(st, self.exc("ImportError", C("cannot import name " + a.name)))]
                st.setvar(fr.eid, nm, v)
                continue
            if mod.startswith("pyangbind"):
                sub = mod + "." + a.name
                if self.modfile(sub):
                    self.import_into(st, sub)
                    st.setvar(fr.eid, nm, self.modules[sub])
                    continue
                if self.modfile(mod):
                    self.import_into(st, mod)
                    v = st.env["m:" + mod].get(a.name)
                    st.setvar(fr.eid, nm, v if v is not None else T("ext", mod + "." + a.name))
                    continue
            st.setvar(fr.eid, nm, T("ext", mod + "." + a.name))
        return [(st, None)]

    def x_FunctionDef(self, n, st, fr):
        out = []
        for s, f in self.make_func(n, n.args, st, fr):
            if isinstance(f, Raise):
                out.append((s, f))
                continue
            v = f
            bad = False
            for d in reversed(n.decorator_list):
                nm = d.id if isinstance(d, ast.Name) else None
                if nm in ("staticmethod", "classmethod"):
                    f2 = self.clone_func(v, nm)
                    v = f2
                elif nm == "property":
                    v = T("property", v, NONE)
                elif isinstance(d, ast.Attribute) and d.attr == "setter":
                    prev = self.getname(d.value.id, s, fr) if isinstance(d.value, ast.Name) else None
                    if isinstance(prev, Term) and prev.op == "property":
                        v = T("property", prev.args[0], v)
                elif self.decorator_transparent(d):
                    pass
                else:
                    bad = True
            if bad:
                v = T("decorated", v)
            self.setname(n.name, v, s, fr)
            out.append((s, None))
        return out

    def decorator_transparent(self, d):
        x = d.func if isinstance(d, ast.Call) else d
        nm = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "")
        return nm in ("lru_cache", "cache", "wraps", "override", "abstractmethod", "final")

    def clone_func(self, f, kind):
        g = FuncVal()
        for a in FuncVal.__slots__:
            setattr(g, a, getattr(f, a))
        g.kind = kind
        key = ("clone", f, kind)
        return self.fcache.setdefault(key, g)

    def make_func(self, n, args, st, fr):
        """-> outcomes of creating the function (defaults are evaluated)"""
        dexprs = list(args.defaults) + [d for d in args.kw_defaults if d is not None]
        out = []
        for s, vals in self.evals(dexprs, st, fr):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            nd = len(args.defaults)
            defaults = tuple(vals[:nd])
            kwd = {}
            i = nd
            for a, d in zip(args.kwonlyargs, args.kw_defaults):
                if d is not None:
                    kwd[a.arg] = vals[i]
                    i += 1
            scope = fr.scope
            # functions defined in a class body do not see its namespace
            if fr.func == "class":
                scope = fr.scope[1:]
            name = getattr(n, "name", "<lambda>")
            key = ("F", id(n), scope, defaults, tuple(sorted(kwd.items(), key=lambda x: x[0])))
            f = self.fcache.get(key)
            if f is None:
                f = FuncVal()
                f.node = n
                f.scope = scope
                f.cls = fr.mangle
                f.defaults = defaults
                f.kwdefaults = kwd
                f.module = fr.mod
                f.name = name
                f.kind = None
                f.qual = (fr.func.qual + "." if isinstance(fr.func, FuncVal) else "") + ((fr.mangle + ".") if fr.func == "class" and fr.mangle else "") + name
                if not isinstance(fr.func, FuncVal):
                    outer = getattr(self, "_clsqual", {}).get(fr.eid)
                    f.qual = (outer + "." if outer else "") + name
                self.fcache[key] = f
            for e in scope:
                if not isinstance(e, str):
                    s.cap = s.cap | {e}
            out.append((s, f))
        return out

    def x_ClassDef(self, n, st, fr):
        out = []
        for s, bases in self.evals(n.bases, st, fr):
            if isinstance(bases, Raise):
                out.append((s, bases))
                continue
            ceid = ("c", s.fresh())
            s.env[ceid] = {}
            scope = fr.scope[1:] if fr.func == "class" else fr.scope
            if isinstance(fr.func, FuncVal):
                qual = fr.func.qual + "." + n.name
            else:
                outer = getattr(self, "_clsqual", {}).get(fr.eid)
                qual = (outer + "." if outer else "") + n.name
            if not hasattr(self, "_clsqual"):
                self._clsqual = {}
            self._clsqual[ceid] = qual
            cfr = Frame((ceid,) + scope, fr.mod, n.name, "class")
            for s2, sig in self.exec_block(n.body, s, cfr):
                if sig is not None:
                    out.append((s2, sig))
                    continue
                ns = s2.env.pop(ceid)
                key = ("K", id(n), scope, tuple(bases), tuple(sorted(ns.items(), key=lambda x: x[0])))
                cv = self.fcache.get(key)
                if cv is None:
                    cv = ClassVal()
                    cv.node = n
                    cv.name = n.name
                    cv.bases = tuple(bases)
                    cv.ns = ns
                    cv.module = fr.mod
                    cv.qual = qual
                    cv.scope = scope
                    self.fcache[key] = cv
                for e in scope:
                    if not isinstance(e, str):
                        s2.cap = s2.cap | {e}
                self.setname(n.name, cv, s2, fr)
                s2.setvar(fr.eid, "$cls:" + n.name, cv)
                out.append((s2, None))
        return out

    def x_Delete(self, n, st, fr):
        outs = [(st, None)]
        for t in n.targets:
            nx = []
            for s, sig in outs:
                if sig is not None:
                    nx.append((s, sig))
                    continue
                if isinstance(t, ast.Name):
                    s.delvar(fr.eid, t.id)
                    nx.append((s, None))
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.eval(t.value, s, fr):
                        if isinstance(o, Raise):
                            nx.append((s2, o))
                        else:
                            nx.extend(self.delattr_(s2, o, C(self.mangle(t.attr, fr)), t, fr))
                elif isinstance(t, ast.Subscript):
                    for s2, (o, k) in self.evals2(t.value, t.slice, s, fr):
                        if isinstance(o, Raise):
                            nx.append((s2, o))
                        else:
                            nx.extend(self.delitem(s2, o, k, t, fr))
                else:
                    nx.append((s, None))
            outs = nx
        return outs

    def delattr_(self, st, o, name, node, fr):
        st.emit("delattr", (self.freeze(st, o), name), self.site(node, fr))
        return [(st, None)]

    def x_Assert(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            elif b:
                out.append((s, None))
            else:
                out.append((s, Raise(T("exc", T("exttype", "AssertionError"), ()))))
        return out

    # ------------------------------------------------------------ control flow
    def cond(self, node, st, fr):
        """Branch on an expression: -> [(st, bool | Raise)]"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            outs = []
            cur = [st]
            for i, e in enumerate(node.values):
                nx = []
                for s in cur:
                    for s2, b in self.cond(e, s, fr):
                        if isinstance(b, Raise):
                            outs.append((s2, b))
                        elif b == isand:
                            nx.append(s2)
                        else:
                            outs.append((s2, b))
                cur = nx
            outs.extend((s, isand) for s in cur)
            return outs
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.cond(node.operand, st, fr)]
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            # a < b < c  ==  a < b and b < c
            parts = []
            left = node.left
            for op, r in zip(node.ops, node.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), node))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node), st, fr)
        out = []
        for s, v in self.eval(node, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v))
        return out

    def x_If(self, n, st, fr):
        ts, fs, out = [], [], []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            elif b:
                ts.append((s, None))
            else:
                fs.append((s, None))
        ts, fs = self.merge(ts), self.merge(fs)
        for s, _ in ts:
            out.extend(self.exec_block(n.body, s, fr))
        for s, _ in fs:
            out.extend(self.exec_block(n.orelse, s, fr))
        return out

    def x_With(self, n, st, fr):
        outs = [(st, None)]
        for it in n.items:
            nx = []
            for s, sig in outs:
                if sig is not None:
                    nx.append((s, sig))
                    continue
                for s2, v in self.eval(it.context_expr, s, fr):
                    if isinstance(v, Raise):
                        nx.append((s2, v))
                    elif it.optional_vars is not None:
                        nx.extend(self.assign(it.optional_vars, v, s2, fr))
                    else:
                        nx.append((s2, None))
            outs = nx
        res = []
        for s, sig in outs:
            if sig is not None:
                res.append((s, sig))
                continue
            ctxexpr = n.items[0].context_expr
            f = ctxexpr.func if isinstance(ctxexpr, ast.Call) else None
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if nm == "suppress":
                hs = [ast.ExceptHandler(type=ast.Tuple(elts=list(ctxexpr.args), ctx=ast.Load()) if len(ctxexpr.args) != 1 else ctxexpr.args[0], name=None, body=[ast.Pass()])]
                t = ast.copy_location(ast.Try(body=n.body, handlers=hs, orelse=[], finalbody=[]), n)
                ast.fix_missing_locations(t)
                res.extend(self.x_Try(t, s, fr))
            else:
                res.extend(self.exec_block(n.body, s, fr))
        return res

    def x_Try(self, n, st, fr):
        self.trydepth += 1 if n.handlers else 0
        try:
            outs = self.exec_block(n.body, st, fr)
        finally:
            self.trydepth -= 1 if n.handlers else 0
        res = []
        for s, sig in outs:
            if sig is None:
                res.extend(self.exec_block(n.orelse, s, fr) if n.orelse else [(s, None)])
            elif isinstance(sig, Raise) and n.handlers:
                res.extend(self.handle(n.handlers, s, sig, fr))
            else:
                res.append((s, sig))
        if n.finalbody:
            fin = []
            for s, sig in self.merge(res):
                for s2, sig2 in self.exec_block(n.finalbody, s, fr):
                    fin.append((s2, sig if sig2 is None else sig2))
            res = fin
        return res

    x_TryStar = x_Try

    def handle(self, handlers, st, sig, fr):
        out = []
        cur = [st]
        for h in handlers:
            nx = []
            for s in cur:
                if h.type is None:
                    types = [[T("exttype", "BaseException")]]
                    evs = [(s, types[0])]
                else:
                    evs = []
                    for s2, v in self.eval(h.type, s, fr):
                        if isinstance(v, Term) and v.op == "tuple":
                            evs.append((s2, list(v.args)))
                        else:
                            evs.append((s2, [v]))
                for s2, ts in evs:
                    ms = [self.exc_matches(sig.exc, t) for t in ts]
                    if any(m is True for m in ms):
                        match, nomatch = s2, None
                    elif all(m is False for m in ms):
                        match, nomatch = None, s2
                    else:
                        match, nomatch = None, None
                        rest = s2
                        for t, m in zip(ts, ms):
                            if m is False:
                                continue
                            a = T("isinst", sig.exc, t)
                            d = decide(rest.facts, a)
                            if d is None:
                                yes = rest.clone()
                                assume(yes, a, True)
                                assume(rest, a, False)
                                out.extend(self.run_handler(h, yes, sig, fr))
                            elif d:
                                out.extend(self.run_handler(h, rest, sig, fr))
                                rest = None
                                break
                        if rest is not None:
                            nx.append(rest)
                        continue
                    if match is not None:
                        out.extend(self.run_handler(h, match, sig, fr))
                    if nomatch is not None:
                        nx.append(nomatch)
            cur = nx
        for s in cur:
            out.append((s, sig))
        return out

    def run_handler(self, h, st, sig, fr):
        old = st.env[fr.eid].get("$exc")
        st.setvar(fr.eid, "$exc", sig.exc)
        if h.name:
            self.setname(h.name, sig.exc, st, fr)
        out = []
        for s, g in self.exec_block(h.body, st, fr):
            if fr.eid in s.env:
                if old is None:
                    s.delvar(fr.eid, "$exc")
                else:
                    s.setvar(fr.eid, "$exc", old)
                if h.name:
                    s.delvar(fr.eid, h.name)
            out.append((s, g))
        return out

    def x_Match(self, n, st, fr):
        out = []
        for s, v in self.eval(n.subject, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            cur = [s]
            for case in n.cases:
                nx = []
                for s1 in cur:
                    for s2, ok in self.match_pat(case.pattern, v, s1, fr):
                        if not ok:
                            nx.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, b in self.cond(case.guard, s2, fr):
                                if isinstance(b, Raise):
                                    out.append((s3, b))
                                elif b:
                                    out.extend(self.exec_block(case.body, s3, fr))
                                else:
                                    nx.append(s3)
                        else:
                            out.extend(self.exec_block(case.body, s2, fr))
                cur = nx
            out.extend((s1, None) for s1 in cur)
        return out

    def match_pat(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, c in self.eval(p.value, st, fr):
                out.extend(self.truth(s, self.eq_value(s, v, c)))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.truth(st, self.eq_value(st, v, C(p.value)))
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nx = []
                for s in cur:
                    for s2, ok in self.match_pat(q, v, s, fr):
                        if ok:
                            out.append((s2, True))
                        else:
                            nx.append(s2)
                cur = nx
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setname(p.name, v, st, fr)
                return [(st, True)]
            out = []
            for s, ok in self.match_pat(p.pattern, v, st, fr):
                if ok and p.name:
                    self.setname(p.name, v, s, fr)
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for s, c in self.eval(p.cls, st, fr):
                out.extend(self.truth(s, self.isinst(s, v, c)))
            return out
        s2 = st.clone()
        a = T("truthy", T("matchpat", v, C(ast.dump(p))))
        assume(st, a, True)
        assume(s2, a, False)
        return [(st, True), (s2, False)]


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for x in ast.walk(t2):
        x.lineno = getattr(t, "lineno", 0)
        x.col_offset = 0
    return t2
