"""Iteration: known sequences are unrolled, everything else is summarised once per path of the body."""

import ast
import builtins as _bi

from .interp import *

_WRAP = ("list_of", "tuple_of", "iter", "sorted", "reversed", "set_of", "copy")


class Loops(object):
    # ------------------------------------------------------------ what is iterated
    def depth(self, base):
        return C(sum(1 for b in self.active_loops if b is base))

    def elem(self, base):
        return T("elem", base, self.depth(base))

    def segments(self, st, v):
        if isinstance(v, Ref):
            h = st.h(v)
            out = []
            for i in h.items:
                if isinstance(i, tuple):
                    out.append(("item", i[0]))
                elif isinstance(i, Gen):
                    out.append(("abs", v, i.key if i.key is not None else i.value, tuple(i.facts), i.it))
                elif isinstance(i, Splice):
                    out.extend(self.segments(st, i.term))
                else:
                    out.append(("item", i))
            return out
        if isinstance(v, C):
            if isinstance(v.v, (str, bytes, tuple)) and len(v.v) <= 40:
                return [("item", C(c)) for c in v.v]
            if v.v is None:
                return []
        if isinstance(v, Term):
            op = v.op
            if op in ("tuple", "list", "set", "tuplegen", "concat"):
                out = []
                for i in v.args:
                    if isinstance(i, Gen):
                        out.append(("abs", v, i.value, tuple(i.facts), i.it))
                    elif isinstance(i, Splice):
                        out.extend(self.segments(st, i.term))
                    else:
                        out.append(("item", i))
                return out
            if op == "dict":
                return [("item", i[0]) if isinstance(i, tuple) else ("abs", v, i.key, tuple(i.facts), i.it) if isinstance(i, Gen) else ("abs", v, self.elem(i.term), (), i.term) for i in v.args]
            if op == "keys":
                return [(s[0], v) + tuple(s[2:]) if s[0] == "abs" else s for s in self.segments(st, v.args[0])]
            if op in ("sorted", "reversed"):
                inner = self.segments(st, v.args[0])
                if len(inner) > 1 and any(x[0] == "item" for x in inner):
                    # the order of the items is not known
                    return [("abs", v, self.elem(v), (), v)]
            if op in _WRAP:
                return [(s[0], v) + tuple(s[2:]) if s[0] == "abs" else s for s in self.segments(st, v.args[0])]
            if op == "items":
                x = v.args[0]
                if isinstance(x, Ref):
                    out = []
                    for i in st.h(x).items:
                        if isinstance(i, tuple):
                            out.append(("item", tup(i)))
                        elif isinstance(i, Gen):
                            out.append(("abs", v, tup((i.key, i.value)), tuple(i.facts), i.it))
                        else:
                            e = self.elem(i.term)
                            out.append(("abs", v, tup((e, self.item(st, i.term, e))), (), i.term))
                    return out
                e = self.elem(x)
                return [("abs", v, tup((e, self.item(st, x, e))), (), x)]
            if op == "values":
                x = v.args[0]
                if isinstance(x, Ref):
                    out = []
                    for i in st.h(x).items:
                        if isinstance(i, tuple):
                            out.append(("item", i[1]))
                        elif isinstance(i, Gen):
                            out.append(("abs", v, i.value, tuple(i.facts), i.it))
                        else:
                            out.append(("abs", v, self.item(st, i.term, self.elem(i.term)), (), i.term))
                    return out
                return [("abs", v, self.item(st, x, self.elem(x)), (), x)]
            if op == "enumerate":
                x = v.args[0]
                start = v.args[1]
                segs = self.segments(st, x)
                if all(s[0] == "item" for s in segs) and isinstance(start, C):
                    return [("item", tup((C(start.v + n), s[1]))) for n, s in enumerate(segs)]
                out = []
                for s in segs:
                    if s[0] == "item":
                        out.append(("item", tup((T("idx", v, C(0)), s[1]))))
                    else:
                        i = T("idx", s[4], self.depth(s[4]))
                        if start is not C(0):
                            i = T("+", i, start)
                        out.append(("abs", v, tup((i, s[2])), s[3], s[4]))
                return out
            if op == "zip":
                cols = [self.segments(st, x) for x in v.args]
                if all(all(s[0] == "item" for s in c) for c in cols):
                    return [("item", tup([s[1] for s in row])) for row in zip(*cols)]
                es = []
                for x, c in zip(v.args, cols):
                    if len(c) == 1 and c[0][0] == "abs":
                        es.append(c[0][2])
                    else:
                        es.append(T("elem", self.freeze(st, x), self.depth(v)))
                return [("abs", v, tup(es), (), v)]
            if op == "range":
                a = v.args
                if len(a) == 1 and isinstance(a[0], Term) and a[0].op == "len":
                    x = a[0].args[0]
                    return [("abs", v, T("idx", x, self.depth(x)), (), x)]
                if all(isinstance(x, C) for x in a):
                    r = range(*[x.v for x in a])
                    if len(r) <= 40:
                        return [("item", C(i)) for i in r]
            if op == "args_of":
                pass
        return [("abs", v, self.elem(v), (), v)]

    # ------------------------------------------------------------ drivers
    def x_For(self, n, st, fr):
        out = []
        for s, it in self.eval(n.iter, st, fr):
            if isinstance(it, Raise):
                out.append((s, it))
                continue

            def body(s2, e):
                res = []
                for s3, sig in self.assign(n.target, e, s2, fr):
                    if sig is not None:
                        res.append((s3, sig))
                    else:
                        res.extend(self.exec_block(n.body, s3, fr))
                return res

            for s2, sig, broke in self.run_loop(s, it, body, n, fr):
                if sig is None and not broke and n.orelse:
                    out.extend(self.exec_block(n.orelse, s2, fr))
                else:
                    out.append((s2, sig))
        return out

    x_AsyncFor = x_For

    def live_base(self, st, v):
        """(the container itself, offset of enumerate) if a loop over v walks a known container that the body could change"""
        n = None
        while isinstance(v, Term) and v.op in ("iter", "keys", "values", "items", "enumerate"):
            v = v.args[0]
        if isinstance(v, Ref) and v.id in st.heap and st.h(v).known():
            return v
        return n

    def run_loop(self, st, itv, body, node, fr):
        """-> [(st, sig, broke)]"""
        segs = self.segments(st, itv)
        if isinstance(itv, Term) and itv.op == "tuple" and not segs:
            return [(st, None, False)]
        base = self.live_base(st, itv)
        if base is not None and all(s[0] == "item" for s in segs):
            return self.live_loop(st, itv, base, segs, body, node, fr)
        cur = [st]
        out = []
        for seg in segs:
            nx = []
            for s in cur:
                if seg[0] == "item":
                    for s2, sig in self.merge(body(s, seg[1])):
                        if sig is None or sig == ("cont",):
                            nx.append((s2, None))
                        elif sig == ("break",):
                            out.append((s2, None, True))
                        else:
                            out.append((s2, sig, False))
                else:
                    for s2, sig, broke in self.abs_loop(s, seg, body, node, fr):
                        if sig is None and not broke:
                            nx.append((s2, None))
                        else:
                            out.append((s2, sig, broke))
            cur = [s for s, _ in self.merge(nx)]
        out.extend((s, None, False) for s in cur)
        return out

    def live_loop(self, st, itv, base, segs, body, node, fr):
        """A loop over a list or dictionary whose entries are known, and that its body may change."""
        h0 = st.h(base)
        cur, out = [st], []
        n = 0
        while cur:
            nx = []
            for s in cur:
                h = s.h(base) if base.id in s.heap else h0
                now = segs
                if h is not h0 and h.items != h0.items and h.known():
                    if isinstance(h, HList):
                        now = self.segments(s, itv)
                    elif len(h.items) != len(h0.items) and n and n < len(segs):
                        out.append((s, Raise(T("exc", T("exttype", "RuntimeError"), (C("dictionary changed size during iteration"),))), False))
                        continue
                if n > 400:
                    raise AnalysisLimit("a loop of more than 400 rounds")
                if n >= len(now):
                    out.append((s, None, False))
                    continue
                for s2, sig in self.merge(body(s, now[n][1])):
                    if sig is None or sig == ("cont",):
                        nx.append((s2, None))
                    elif sig == ("break",):
                        out.append((s2, None, True))
                    else:
                        out.append((s2, sig, False))
            cur = [s for s, _ in self.merge(nx)]
            n += 1
        return out

    # ------------------------------------------------------------ change detection
    def diff(self, a, b, skip_env=()):
        """Locations existing in `a` whose content differs in `b`."""
        locs = set()
        for eid, e in a.env.items():
            e2 = b.env.get(eid)
            if e2 is None or e2 is e:
                continue
            for k, v in e.items():
                if e2.get(k) is not v:
                    locs.add(("e", eid, k))
        for rid, h in a.heap.items():
            h2 = b.heap.get(rid)
            if h2 is not None and h2 is not h and h2 != h:
                locs.add(("h", rid))
        for k, v in b.attrs.items():
            if a.attrs.get(k) is not v:
                locs.add(("a", k))
        return locs

    def locget(self, st, loc):
        if loc[0] == "e":
            return st.env[loc[1]].get(loc[2])
        if loc[0] == "h":
            return st.heap.get(loc[1])
        return st.attrs.get(loc[1])

    def locset(self, st, loc, v):
        if loc[0] == "e":
            if v is None:
                st.delvar(loc[1], loc[2])
            else:
                st.setvar(loc[1], loc[2], v)
        elif loc[0] == "h":
            st.heap[loc[1]] = v
        elif v is None:
            st.attrs.pop(loc[1], None)
        else:
            st.attrs[loc[1]] = v

    def live_after(self, node, fr, name):
        f = fr.func.node if isinstance(fr.func, FuncVal) else None
        if f is None or not hasattr(node, "end_lineno"):
            return True
        key = (id(f), id(node))
        cache = self.__dict__.setdefault("_live", {})
        if key not in cache:
            names = set()
            inside = set(id(x) for x in ast.walk(node))
            # an enclosing loop makes everything in it reachable again
            lo = node.end_lineno
            for x in ast.walk(f):
                if isinstance(x, (ast.For, ast.While)) and x is not node and any(y is node for y in ast.walk(x)):
                    lo = min(lo, x.lineno - 1)
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside and x.lineno > lo:
                    names.add(x.id)
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside and x.lineno >= node.lineno and x.lineno <= node.end_lineno:
                    names.add(x.id)
            cache[key] = names
        return name in cache[key]

    # ------------------------------------------------------------ the summary
    def abs_loop(self, pre, seg, body, node, fr, while_=False):
        _, itv, elem, efacts, base = seg
        dep = self.depth(base)
        nonempty = T("truthy", base)
        if not while_ and decide(pre.facts, nonempty) is False:
            return [(pre, None, False)]
        if efacts:
            ex = T("exists", base, frozenset(efacts))
            if decide(pre.facts, ex) is False:
                return [(pre, None, False)]

        def run(start):
            s = start.clone()
            if not while_ and not assume(s, nonempty, True):
                return []
            for a, b in efacts:
                if not assume(s, a, b):
                    return []
            self.active_loops.append(base)
            try:
                outs = self.merge(body(s, elem))
            finally:
                self.active_loops.pop()
            return outs

        start = pre
        outs = run(start)
        locs = {}
        counters = {}
        for _ in range(5):
            back = [(s, g) for s, g in outs if g is None or g == ("cont",)]
            changed = set()
            for s, g in back:
                changed |= self.diff(start, s)
            # loop-carried attributes of objects created in the body do not matter
            new = {}
            for loc in sorted(changed, key=repr):
                if loc in locs:
                    continue
                v0 = self.locget(pre, loc)
                if loc[0] == "h":
                    phi = T("phi", base, dep, C("h%s" % (loc[1],)))
                    keep = all(self.locget(s, loc) is not None and self.locget(s, loc).items[: len(v0.items)] == v0.items for s, g in back)
                    items = (v0.items if keep else ()) + (Splice(phi),)
                    new[loc] = (phi, HList(v0.kind, items) if isinstance(v0, HList) else HDict(items))
                elif loc[0] == "e":
                    if loc[1] == fr.eid and v0 is not None and not while_ and isinstance(node, ast.For) and loc[2] in target_names(node.target):
                        phi = T("last", base, dep, C(loc[2]))
                    else:
                        phi = T("phi", base, dep, C(loc[2]))
                    new[loc] = (phi, phi)
                else:
                    phi = T("phi", base, dep, loc[1][0], loc[1][1])
                    new[loc] = (phi, phi)
            # counters
            cnt = {}
            for loc, (phi, val) in locs.items():
                if loc[0] == "e" and loc not in counters:
                    v0 = self.locget(pre, loc)
                    if isinstance(v0, C) and isinstance(v0.v, int) and not isinstance(v0.v, bool) and back and all(self.locget(s, loc) is T("+", phi, C(1)) for s, g in back):
                        idx = T("idx", base, dep)
                        cnt[loc] = idx if v0.v == 0 else T("+", idx, v0)
            if not new and not cnt:
                break
            locs.update(new)
            start = pre.clone()
            counters.update(cnt)
            for loc, (phi, val) in locs.items():
                self.locset(start, loc, counters.get(loc, val))
            outs = run(start)
        else:
            pass

        # ---- classify
        sfacts = start.facts
        nev = len(start.events)

        def delta(s):
            return frozenset((a, b) for a, b in s.facts.items() if sfacts.get(a) is not b and a is not nonempty)

        back, exits, wexits = [], [], []
        for s, g in outs:
            if g is None or g == ("cont",):
                back.append((s, None))
            elif g == ("wexit",):
                wexits.append((s, None))
            else:
                exits.append((s, g))
        self.stats["paths"] += len(outs)

        accum = {}   # phi -> final term / entries
        final_h = {}
        plain = []
        for loc, (phi, val) in locs.items():
            v0 = self.locget(pre, loc)
            if loc in counters:
                continue
            if loc[0] == "h":
                pref = val.items
                ents = []
                ok = True
                for s, g in back:
                    h = s.heap.get(loc[1])
                    if h is None or h.items[: len(pref)] != pref:
                        ok = False
                        break
                    d = delta(s)
                    for i in h.items[len(pref):]:
                        if isinstance(i, tuple):
                            ents.append(Gen(base, d, i[1], i[0]))
                        elif isinstance(i, Gen):
                            ents.append(Gen(T("nest", base, i.it), d | i.facts, i.value, i.key))
                        elif isinstance(i, Splice):
                            ents.append(Gen(T("nest", base, i.term), d, T("elem", i.term, C(0))))
                        else:
                            ents.append(Gen(base, d, i))
                if ok:
                    items = pref[:-1] + tuple(dict.fromkeys(ents))
                    final_h[loc] = HList(val.kind, items) if isinstance(val, HList) else HDict(items)
                    accum[phi] = tuple(dict.fromkeys(ents))
                else:
                    final_h[loc] = val
                continue
            # strings
            vals = [(s, self.locget(s, loc)) for s, g in back]
            if loc[0] == "e" and is_str(v0) and any(v is not phi for s, v in vals) and all(v is phi or (isinstance(v, Term) and v.op == "str" and v.args[0] is phi) for s, v in vals):
                pieces = tuple((delta(s), v.args[1:]) for s, v in vals if v is not phi)
                accum[phi] = mkstr((v0, T("strgen", base, pieces)))
                locs_final = accum[phi]
                continue
            plain.append(loc)

        def settle(s):
            """Replace accumulator placeholders by what has been accumulated."""
            m = {p: v for p, v in accum.items() if isinstance(v, V)}
            hm = {p: v for p, v in accum.items() if not isinstance(v, V)}
            if m:
                for eid, e in list(s.env.items()):
                    if isinstance(eid, str):
                        continue
                    for k, v in e.items():
                        if isinstance(v, V) and any(x in m for x in walk(v)):
                            s.setvar(eid, k, subst(v, m))
            if hm:
                for rid, h in list(s.heap.items()):
                    if any(isinstance(i, Splice) and i.term in hm for i in h.items):
                        items = []
                        for i in h.items:
                            if isinstance(i, Splice) and i.term in hm:
                                items.extend(hm[i.term])
                            else:
                                items.append(i)
                        s.heap[rid] = HList(h.kind, tuple(items)) if isinstance(h, HList) else HDict(tuple(items))
            return s

        bodies = []
        for s, g in back:
            ev = s.events[nev:]
            if ev:
                b = Body(delta(s), ev, None)
                if b not in bodies:
                    bodies.append(b)
        bbodies = tuple(bodies)
        allb = list(bodies)
        for s, g in exits:
            b = Body(delta(s), s.events[nev:], g if isinstance(g, tuple) else ("raise", g.exc))
            if b not in allb:
                allb.append(b)
        res = []
        site = self.site(node, fr)

        def loopev(bs):
            return (Ev("loop", (base, tuple(bs), itv), site),)

        # ---- early exits
        for s, g in exits:
            ev = pre.events + (loopev(bbodies) if bbodies else ()) + s.events[nev:]
            s.events = ev
            settle(s)
            d = delta(s)
            if not any(self.has_phi(a) for a, _ in d) and d and not while_:
                s.facts[T("exists", base, d)] = True
            if g == ("break",):
                res.append((s, None, True))
            else:
                res.append((s, g, False))

        # ---- exhaustion
        evs = pre.events + (loopev(bbodies) if bbodies else ())
        if while_:
            for s, g in wexits:
                s.events = evs + s.events[nev:]
                settle(s)
                for loc, v in counters.items():
                    pass
                res.append((s, None, False))
            return res

        def base_state():
            s = pre.clone()
            s.ctr = max([pre.ctr] + [x.ctr for x, _ in back])
            s.cap = pre.cap
            for x, _ in back:
                s.cap = s.cap | x.cap
                for eid, e in x.env.items():
                    if eid not in s.env:
                        s.env[eid] = e
                for rid, h in x.heap.items():
                    if rid not in s.heap:
                        s.heap[rid] = h
            s.events = evs
            for loc in final_h:
                self.locset(s, loc, final_h[loc])
            for loc, (phi, val) in locs.items():
                if phi in accum and isinstance(accum[phi], V):
                    self.locset(s, loc, accum[phi])
                elif loc in counters:
                    v0 = self.locget(pre, loc)
                    self.locset(s, loc, T("len", base) if v0.v == 0 else T("+", T("len", base), v0))
            # names first bound inside the body
            for x, _ in back:
                for k in x.env.get(fr.eid, {}):
                    if k not in pre.env.get(fr.eid, {}) and not k.startswith("$"):
                        if self.live_after(node, fr, k):
                            s.setvar(fr.eid, k, T("last", base, dep, C(k)))
            return s

        def no_exit_facts(s):
            for x, g in exits:
                d = delta(x)
                if any(self.has_phi(a) for a, _ in d):
                    continue
                if not d:
                    if efacts:
                        return assume(s, T("exists", base, frozenset(efacts)), False)
                    if not assume(s, nonempty, False):
                        return False
                    continue
                if not assume(s, T("exists", base, d), False):
                    return False
            return True

        live = []
        for loc in plain:
            if loc[0] == "e" and loc[1] == fr.eid and not self.live_after(node, fr, loc[2]):
                continue
            live.append(loc)
        groups = {}
        for s, g in back:
            key = tuple(self.locget(s, loc) for loc in live)
            groups.setdefault(key, []).append(delta(s))
        unchanged = tuple(locs[loc][0] for loc in live)
        for loc in plain:
            if loc not in live:
                pass
        s0 = base_state()
        ok = no_exit_facts(s0)
        for key, ds in groups.items():
            if key == unchanged:
                continue
            for d in ds:
                if any(self.has_phi(a) for a, _ in d):
                    continue
                if d:
                    ok = ok and assume(s0, T("exists", base, d), False)
                else:
                    ok = ok and assume(s0, nonempty, False)
        for loc in plain:
            self.locset(s0, loc, self.locget(pre, loc))
        if ok:
            res.append((s0, None, False))
        for key, ds in groups.items():
            if key == unchanged:
                continue
            if len(ds) > 4:
                common = ds[0]
                for d in ds[1:]:
                    common = common & d
                ds = [common]
            for d in ds:
                s = base_state()
                if not no_exit_facts(s) or not assume(s, nonempty, True):
                    continue
                good = True
                for a, b in d:
                    good = good and assume(s, a, b)
                if not good:
                    continue
                if d and not any(self.has_phi(a) for a, _ in d):
                    s.facts[T("exists", base, d)] = True
                for loc, v in zip(live, key):
                    # a location this path leaves alone keeps whatever an earlier iteration gave it
                    self.locset(s, loc, v)
                for loc in plain:
                    if loc not in live:
                        self.locset(s, loc, locs[loc][0])
                res.append((s, None, False))
        return res

    def has_phi(self, v):
        return any(isinstance(x, Term) and x.op in ("phi",) for x in walk(v))

    # ------------------------------------------------------------ while
    def x_While(self, n, st, fr):
        def body(s, e):
            out = []
            for s2, b in self.cond(n.test, s, fr):
                if isinstance(b, Raise):
                    out.append((s2, b))
                elif b:
                    out.extend(self.exec_block(n.body, s2, fr))
                else:
                    out.append((s2, ("wexit",)))
            return out

        # a few iterations may be decidable outright (constant conditions)
        out = []
        idxform = self.while_index(n, st, body, fr)
        if idxform is not None:
            base = idxform

            def fbody(s, e):
                return [(s2, ("break",) if g == ("wexit",) else g) for s2, g in body(s, e)]

            rs = self.abs_loop(st, ("abs", base, self.elem(base), (), base), fbody, n, fr)
        else:
            wb = T("while", C(sum(1 for b in self.active_loops if isinstance(b, Term) and b.op == "while")), C(self.while_id(n, fr)))
            zero = []
            pre = st.clone()
            first = body(pre, None)
            for s, g in first:
                if g == ("wexit",):
                    zero.append((s, None, False))
            if len(zero) == len(first):
                rs = zero
            else:
                rs = self.abs_loop(st, ("abs", wb, wb, (), wb), body, n, fr, while_=True)
                seen = set()
                rs = zero + rs
        for s, sig, broke in rs:
            if sig is None and not broke and n.orelse:
                out.extend(self.exec_block(n.orelse, s, fr))
            else:
                out.append((s, sig))
        return out

    def while_id(self, n, fr):
        return "%s:%d" % (fr.func.qual if isinstance(fr.func, FuncVal) else fr.mod, n.lineno)

    def while_index(self, n, st, body, fr):
        """`i = 0; while i < len(x): ...; i += 1` iterates over x."""
        for x in ast.walk(n.test):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.NotEq)):
                l, r = x.left, x.comparators[0]
                if isinstance(l, ast.Name) and isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "len" and len(r.args) == 1:
                    if self.getname(l.id, st, fr) is not C(0):
                        continue
                    incs = [y for y in n.body if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and y.target.id == l.id and isinstance(y.op, ast.Add) and isinstance(y.value, ast.Constant) and y.value.value == 1]
                    stores = [y for y in ast.walk(n) if isinstance(y, ast.Name) and y.id == l.id and isinstance(y.ctx, ast.Store)]
                    conts = [y for y in ast.walk(n) if isinstance(y, ast.Continue)]
                    if len(incs) == 1 and len(stores) == 1 and not conts and n.test is x:
                        rs = self.eval(r.args[0], st.clone(), fr)
                        if len(rs) == 1 and not isinstance(rs[0][1], Raise):
                            v = rs[0][1]
                            if isinstance(v, Ref) or (isinstance(v, Term) and v.op in ("tuple", "list")):
                                return None
                            return v
        return None

    # ------------------------------------------------------------ comprehensions
    def comp(self, n, st, fr, kind, elt):
        ceid = ("x", st.fresh())
        st.env[ceid] = {}
        cfr = Frame((ceid,) + fr.scope, fr.mod, fr.mangle, fr.func)
        acc = st.alloc(HDict(()) if kind == "dict" else HList(kind, ()))
        st.env[ceid] = {"$acc": acc}  # states in which it differs must not be merged

        def gen(i, s):
            if i == len(n.generators):
                out = []
                if kind == "dict":
                    for s2, kv in self.evals([n.key, n.value], s, cfr):
                        if isinstance(kv, Raise):
                            out.append((s2, kv))
                        else:
                            s2.heap[acc.id] = self.dict_put(s2, s2.h(acc), kv[0], kv[1])
                            out.append((s2, None))
                    return out
                for s2, v in self.eval(n.elt, s, cfr):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    else:
                        h = s2.h(acc)
                        items = h.items + (v,)
                        if kind == "set" and v in h.items:
                            items = h.items
                        s2.heap[acc.id] = HList(kind, items)
                        out.append((s2, None))
                return out
            g = n.generators[i]
            out = []
            for s2, it in self.eval(g.iter, s, cfr if i else Frame(fr.scope, fr.mod, fr.mangle, fr.func, fr.locals, fr.globals, fr.nonlocals)):
                if isinstance(it, Raise):
                    out.append((s2, it))
                    continue

                def body(s3, e):
                    res = []
                    cur = [(x, sg) for x, sg in self.assign(g.target, e, s3, cfr)]
                    for c in g.ifs:
                        nx = []
                        for x, sg in cur:
                            if sg is not None:
                                nx.append((x, sg))
                                continue
                            for y, b in self.cond(c, x, cfr):
                                if isinstance(b, Raise):
                                    nx.append((y, b))
                                elif b:
                                    nx.append((y, None))
                                else:
                                    nx.append((y, ("cont",)))
                        cur = nx
                    for x, sg in cur:
                        if sg is not None:
                            res.append((x, sg))
                        else:
                            res.extend(gen(i + 1, x))
                    return res

                for s4, sig, broke in self.run_loop(s2, it, body, n, cfr):
                    out.append((s4, sig))
            return out

        out = []
        for s, sig in self.merge(gen(0, st)):
            if ceid not in s.cap:
                s.env.pop(ceid, None)
            out.append((s, sig if isinstance(sig, Raise) else acc))
        return out

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, "list", n.elt)

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, "set", n.elt)

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, "list", n.elt)

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, "dict", None)


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
