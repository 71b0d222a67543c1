"""Obligations, verdicts, evidence and the command line of the checks."""

import concurrent.futures
import concurrent.futures.process
import importlib
import contextlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("VERIF_REPO", "/repo")

RULES = {}      # property -> [(name, fn, minimum, tier)]
EXPLAIN = {}    # property -> explanation


class Undecided(Exception):
    """The rule cannot tell; it stays quiet."""


class Definite(Exception):
    """The code analysed fails on a valid schema, whatever the data."""


class Timeout(Exception):
    pass


def rule(prop, name, minimum=1, tier="quick", limit=150):
    """Register a rule.  `minimum`: number of obligations that must be generated on a tree whose anchors exist."""

    def deco(fn):
        RULES.setdefault(prop, []).append((name, fn, minimum, tier, limit))
        return fn

    return deco


def explain(prop, text):
    EXPLAIN[prop] = text


def analysis_errors():
    from .interp import AnalysisBroken, AnalysisLimit

    return AnalysisBroken, AnalysisLimit, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.obl = []           # dicts
        self.rule = None
        self.interps = []
        self.stats = []
        self.known = load_known(prop)

    # -- analysis objects
    def interp(self):
        from .engine import Interp

        it = Interp(ROOT)
        self.interps.append(it)
        return it

    def lab(self, **kw):
        from .scenario import Lab

        return Lab(self, ROOT, **kw)

    # -- verdicts
    def _add(self, verdict, inst, msg, site=None, detail=None):
        self.obl.append({"rule": self.rule, "instance": inst, "verdict": verdict, "what": msg, "site": site, "detail": detail})

    def ok(self, inst, msg="", site=None):
        self._add("holds", inst, msg, site)

    def bad(self, inst, msg, site=None, detail=None):
        self._add("violated", inst, msg, site, detail)

    def und(self, inst, msg, site=None):
        self._add("undecided", inst, msg, site)

    @contextlib.contextmanager
    def instance(self, inst, site=None):
        """What stops the generation of one instance is a verdict on it alone."""
        try:
            yield
        except Undecided as e:
            self.und(inst, "undecided: %s" % e, site)
        except Definite as e:
            self.bad(inst, str(e.args[0]), e.args[1] if len(e.args) > 1 else site)
        except analysis_errors() as e:
            self.und(inst, "%s: %s" % (type(e).__name__, str(e)[:200]), site)

    def check(self, inst, cond, msg_ok, msg_bad, site=None, detail=None):
        if cond is True:
            self.ok(inst, msg_ok, site)
        elif cond is False:
            self.bad(inst, msg_bad, site, detail)
        else:
            self.und(inst, msg_ok, site)


def load_known(prop):
    """Entries of known_findings.txt: 'known: property=C01 rule=<r> instance=<i> :: text'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("known: property=%s " % prop):
            continue
        body, _, text = line.partition(" :: ")
        body = body[len("known: property=%s " % prop):]
        r, _, i = body.partition(" instance=")
        out.append((r.replace("rule=", "", 1).strip(), i.strip(), text.strip()))
    return out


def _alarm(*a):
    raise Timeout()


def run_rule(prop, tier, seed, index):
    """One rule; what it found, as plain data."""
    name, fn, minimum, rtier, limit = RULES[prop][index]
    ctx = Ctx(prop, tier, seed)
    ctx.rule = name
    errors = []
    t1 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit if tier == "quick" else limit * 4)
    try:
        fn(ctx)
    except Undecided as e:
        ctx.und("*", "undecided: %s" % e)
    except Definite as e:
        ctx.bad("generation", str(e.args[0]), e.args[1] if len(e.args) > 1 else None)
    except Timeout:
        ctx.und("*", "time limit reached")
    except Exception as e:  # an analysis failure is not a verdict
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        ctx.und("*", "%s: %s (%s)" % (type(e).__name__, str(e)[:300], where))
        errors.append("%s: %s: %s (%s)" % (name, type(e).__name__, str(e)[:200], where))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if len(ctx.obl) < minimum and not any(o["verdict"] != "holds" for o in ctx.obl):
        ctx.und("*", "only %d of at least %d expected instances found" % (len(ctx.obl), minimum))
    files, funcs, paths, calls = set(), set(), 0, 0
    for it in ctx.interps:
        files |= {f.replace(ROOT + "/", "") for f in it.analysed_files}
        funcs |= {str(x) for x in it.stats["functions"]}
        paths += it.stats["paths"]
        calls += it.stats["calls"]
    for o in ctx.obl:
        for k in ("site", "detail", "what", "instance"):
            if o[k] is not None and not isinstance(o[k], str):
                o[k] = str(o[k])
    return name, ctx.obl, errors, time.time() - t1, (files, funcs, paths, calls)


def run_property(prop, tier="quick", seed=1):
    """The rules of a property, each in a process of its own."""
    importlib.import_module("rules." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    t0 = time.time()
    todo = []
    for index, (name, fn, minimum, rtier, limit) in enumerate(RULES.get(prop, [])):
        if rtier == "thorough" and tier != "thorough":
            continue
        if os.environ.get("VERIF_RULE") and os.environ["VERIF_RULE"] not in name:
            continue  # while working on a rule
        todo.append(index)
    done = {}
    workers = min(int(os.environ.get("VERIF_JOBS", "6")), len(todo), os.cpu_count() or 1)
    if workers > 1:
        try:
            with concurrent.futures.ProcessPoolExecutor(workers, multiprocessing.get_context("fork")) as pool:
                jobs = {i: pool.submit(run_rule, prop, tier, seed, i) for i in todo}
                for i, j in jobs.items():
                    try:
                        done[i] = j.result()
                    except concurrent.futures.process.BrokenProcessPool:
                        pass
        except OSError:
            pass
    errors, ran = [], []
    for i in todo:
        name, obl, errs, secs, stats = done[i] if i in done else run_rule(prop, tier, seed, i)
        ctx.obl += obl
        errors += errs
        ran.append((name, len(obl), secs))
        ctx.stats.append(stats)
    return ctx, errors, ran, time.time() - t0


def main(argv):
    prop = argv[0]
    verbose = "-v" in argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    ctx, errors, ran, wall = run_property(prop, tier, seed)
    holds = [o for o in ctx.obl if o["verdict"] == "holds"]
    und = [o for o in ctx.obl if o["verdict"] == "undecided"]
    bad = [o for o in ctx.obl if o["verdict"] == "violated"]
    known, new = [], []
    for o in bad:
        for r, i, text in ctx.known:
            if r == o["rule"] and (i == o["instance"] or i == "*"):
                known.append((o, text))
                break
        else:
            new.append(o)
    files, funcs, paths, calls = set(), set(), 0, 0
    for fi, fu, pa, ca in ctx.stats:
        files |= fi
        funcs |= fu
        paths += pa
        calls += ca
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "wall_s": round(wall, 3),
        "coverage": {
            "explanation": EXPLAIN.get(prop, ""),
            "rules": [{"rule": n, "obligations": c, "seconds": round(t, 2)} for n, c, t in ran],
            "obligations": len(ctx.obl),
            "discharged": len(holds),
            "undecided": len(und),
            "violated": len(bad),
            "known_findings": len(known),
            "files_analysed": sorted(files),
            "functions_analysed": len(funcs),
            "abstract_paths": paths,
            "call_sites_resolved": calls,
            "instances": ctx.obl[:2000],
        },
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", prop + ".json")
    with open(evp, "w") as fd:
        json.dump(ev, fd, indent=1, default=str)
        fd.write("\n")
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%d known) in %.1fs" % (prop, len(ctx.obl), len(holds), len(und), len(bad), len(known), wall))
    if verbose:
        for n, c, t in ran:
            print("  rule %-38s %4d obligations %.1fs" % (n, c, t))
    for o in und if verbose else und[:20]:
        print("  undecided [%s/%s] %s" % (o["rule"], o["instance"], o["what"]))
    for o, text in known:
        print("KNOWN-FINDING: property=%s [%s/%s] %s" % (prop, o["rule"], o["instance"], text))
    if new:
        rp = os.path.join(HERE, "evidence", prop + ".violations.txt")
        with open(rp, "w") as fd:
            fd.write("re-run: python3 /verif/check.py %s\n" % prop)
            for o in new:
                fd.write("\n[%s/%s] at %s\n%s\n" % (o["rule"], o["instance"], o["site"], o["what"]))
                if o["detail"]:
                    fd.write(str(o["detail"]) + "\n")
        for o in new[:30]:
            print("  VIOLATED [%s/%s] at %s: %s" % (o["rule"], o["instance"], o["site"], o["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if not ctx.obl:
        print("analysis broken: no rule of %s could be decided: %s" % (prop, "; ".join(errors) or [o["what"] for o in und][:3]))
        return 2
    return 0
