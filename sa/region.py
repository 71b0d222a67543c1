"""Deciding path conditions over a finite partition of an input's value space.

A path condition that touches the input only through comparisons with
constants, conversions and finitely many tests is constant on every region of
the partition those constants induce.  `truth_at` evaluates a condition on a
representative of a region; anything outside the supported vocabulary is
unknown (None), never guessed.
"""

import decimal
import re

from .vals import *
from .state import *


class Unknown(Exception):
    pass


class Raises(Exception):
    """The term's evaluation fails on this region."""


STRM = {"split", "strip", "lstrip", "rstrip", "upper", "lower", "replace", "startswith", "endswith", "find", "partition", "rpartition", "encode", "decode", "isdigit", "join", "format", "count", "index", "title", "splitlines"}
TYPES = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "dict": dict, "tuple": tuple, "bytes": bytes, "set": set, "object": object}


def value_at(v, env):
    """Python value of term v where env: {term: representative}."""
    if v in env:
        return env[v]
    if isinstance(v, C):
        return v.v
    if not isinstance(v, Term):
        raise Unknown(pp(v))
    op, a = v.op, v.args
    if op in ATOMS or op == "not":
        r = truth_at(v, env)
        if r is None:
            raise Unknown(pp(v))
        return r
    if op in ("int", "float", "tostr", "len", "repr"):
        x = value_at(a[0], env)
        try:
            return {"int": int, "float": float, "tostr": str, "len": len, "repr": repr}[op](x)
        except Exception:
            raise Raises()
    if op == "format" and len(a) == 2 and isinstance(a[1], C) and isinstance(a[1].v, str):
        x = value_at(a[0], env)
        try:
            return format(x, a[1].v)
        except Exception:
            raise Raises()
    if op == "str":
        return "".join(str(value_at(x, env)) for x in a)
    if op in ("tuple", "list"):
        return tuple(value_at(x, env) for x in a) if op == "tuple" else [value_at(x, env) for x in a]
    if op in ("+", "-", "*", "/") and len(a) == 2:
        x, y = value_at(a[0], env), value_at(a[1], env)
        try:
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
        except Exception:
            raise Raises()
    if op == "decimal":
        x = value_at(a[0], env)
        try:
            return decimal.Decimal(x)
        except Exception:
            raise Raises()
    if op == "call":
        fn, args, kw = a
        if isinstance(fn, Term) and fn.op in ("ext", "exttype") and not kw:
            n = fn.args[0]
            if n in ("int", "float", "str", "len", "bool", "abs", "round"):
                xs = [value_at(x, env) for x in args]
                try:
                    return {"int": int, "float": float, "str": str, "len": len, "bool": bool, "abs": abs, "round": round}[n](*xs)
                except Exception:
                    raise Raises()
            if n in ("regex.match", "regex.fullmatch", "regex.search", "re.match", "re.fullmatch", "re.search"):
                xs = [value_at(x, env) for x in args]
                try:
                    return getattr(re, n.split(".")[1])(*xs)
                except Exception:
                    raise Raises()
        if isinstance(fn, Term) and fn.op in ("attr", "method") and isinstance(fn.args[1], C) and not kw:
            m = fn.args[1].v
            x = value_at(fn.args[0], env)
            if isinstance(x, (str, bytes)) and m in STRM or isinstance(x, decimal.Decimal) and m == "quantize":
                xs = [value_at(y, env) for y in args]
                try:
                    return getattr(x, m)(*xs)
                except Exception:
                    raise Raises()
        raise Unknown(pp(v))
    if op == "item" or op == "elem":
        x, k = value_at(a[0], env), value_at(a[1], env)
        try:
            return x[k]
        except Exception:
            raise Raises()
    if op == "rx":
        return re.compile(a[0].v)
    if op == "copy" and len(a) == 1:
        return value_at(a[0], env)
    if op == "slice" and len(a) == 3:
        x, i, j = (value_at(y, env) for y in a)
        try:
            return x[i:j]
        except Exception:
            raise Raises()
    raise Unknown(pp(v))


def truth_at(atom, env):
    """True / False / None (unknown)."""
    if isinstance(atom, bool):
        return atom
    if isinstance(atom, C):
        return bool(atom.v)
    if not isinstance(atom, Term):
        return None
    op, a = atom.op, atom.args
    try:
        if op == "not":
            r = truth_at(a[0], env)
            return None if r is None else not r
        if op == "truthy":
            return bool(value_at(a[0], env))
        if op == "eq":
            return value_at(a[0], env) == value_at(a[1], env)
        if op == "is":
            x, y = value_at(a[0], env), value_at(a[1], env)
            if isinstance(y, (bool, type(None))) or isinstance(x, (bool, type(None))):
                return x is y
            return None
        if op == "lt":
            return value_at(a[0], env) < value_at(a[1], env)
        if op == "inset":
            return value_at(a[0], env) in [c.v for c in a[1]]
        if op == "in":
            return value_at(a[0], env) in value_at(a[1], env)
        if op == "isinst":
            x = value_at(a[0], env)
            n = clsname(a[1])
            if n in TYPES:
                return isinstance(x, TYPES[n])
            if isinstance(a[1], ClassVal) or n in ("Decimal", "OrderedDict"):
                return False
            return None
        if op == "hasattr":
            x = value_at(a[0], env)
            return hasattr(x, a[1].v) if isinstance(a[1], C) else None
        if op == "raises":
            t = a[0]
            if isinstance(t, Term) and t.op == "new0":
                # construction of a str/int subclass from an acceptable value
                base = t.args[1].v.split(".")[0]
                if base in TYPES and len(t.args[2]) == 1:
                    x = value_at(t.args[2][0], env)
                    try:
                        TYPES[base](x)
                        return False
                    except Exception:
                        return True
                if base in TYPES and not t.args[2]:
                    return False
                return None
            try:
                value_at(t, env)
                return False
            except Raises:
                return True
        if op == "or":
            rs = [truth_at(x, env) for x in a]
            if True in rs:
                return True
            return None if None in rs else False
        if op == "callable":
            return callable(value_at(a[0], env))
    except Unknown:
        return None
    except Raises:
        return None
    except Exception:
        return None
    return None


def path_at(state, env):
    """Is the path taken on this region: True / False / None."""
    unknown = False
    for atom, b in state.facts.items():
        t = truth_at(atom, env)
        if t is None:
            unknown = True
        elif t != b:
            return False
    return None if unknown else True


def outcomes_at(outs, env):
    """(definite outcomes, possible outcomes) on the region."""
    d, p = [], []
    for s, v in outs:
        t = path_at(s, env)
        if t is True:
            d.append((s, v))
        elif t is None:
            p.append((s, v))
    return d, p


def constants(outs, term):
    """Numeric constants the paths compare with: the breakpoints of the partition."""
    cs = set()
    for s, _ in outs:
        for atom in s.facts:
            for x in walk(atom):
                if isinstance(x, C) and isinstance(x.v, (int, float)) and not isinstance(x.v, bool):
                    cs.add(x.v)
                elif isinstance(x, Term) and x.op == "inset":
                    for c in x.args[1]:
                        if isinstance(c.v, (int, float)) and not isinstance(c.v, bool):
                            cs.add(c.v)
    return cs
