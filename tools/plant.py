"""Plants a bug in /repo, confirms it (builds, passes the stable tests, demo fails with it and passes without), undoes it and keeps it under /verif/seeded.

Used by hand while building the checks; no check uses it."""
import concurrent.futures, json, os, subprocess, sys

# the repository (cloned for each bug, so that it stays as it is), where bugs are kept, and the original repository
R, V, O = os.environ.get("PLANT_REPO", "/repo"), os.environ.get("PLANT_OUT", "/verif"), os.environ.get("PLANT_ORIG", "/tmp/orig")
HEAD = '''import os, subprocess, sys, tempfile, types, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

def gen(*sources, flags=""):
    """Bindings for the YANG sources [(name, text)], the last one is the module to generate."""
    d = tempfile.mkdtemp()
    try:
        for n, t in sources:
            with open(os.path.join(d, n + ".yang"), "w") as fd:
                fd.write(t)
        env = {"PYTHONPATH": os.getcwd(), "PATH": "/opt/venv/bin:/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1"}
        cmd = ["pyang", "--plugindir", os.path.join(os.getcwd(), "pyangbind/plugin"), "-f", "pybind", "-p", d] + flags.split() + [os.path.join(d, sources[-1][0] + ".yang")]
        code = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, check=True).stdout.decode()
    finally:
        shutil.rmtree(d)
    m = types.ModuleType("bindings")
    exec(code, m.__dict__)
    m.CODE = code
    return m

def module(name, body, prefix=None, head=""):
    return (name, "module %s { yang-version 1.1; namespace 'urn:%s'; prefix %s; %s %s }" % (name, name, prefix or name, head, body))

'''
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


TESTS = """cd %(w)s && PATH=/opt/venv/bin:$PATH PYTHONPATH=%(w)s PYTHONHASHSEED=0 python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o python_files="run.py test_*.py 00_*.py" --ignore=tests/integration --ignore=tests/serialise/openconfig-serialise -o junit_family=xunit2 --junitxml=%(w)s/junit.xml; /usr/bin/python3 /opt/vp/results.py %(w)s/out.json junit:%(w)s/junit.xml"""


def plant(id, prop, needs, breaks, edits, demo, tests=True):
    w = "/tmp/plant-" + id
    d = os.path.join(V, "seeded", id)
    sh("rm -rf %s; git clone -q %s %s" % (w, R, w))
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as fd:
        fd.write(HEAD + demo.strip("\n") + "\n")
    with open(d + "/demo.sh", "w") as fd:
        fd.write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    try:
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if r.returncode != 0:
            print(id, "DEMO FAILS ON CLEAN:", r.stdout.decode()[-1500:])
            ok = False
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT: %d matches in %s for %r" % (s.count(old), f, old[:80]))
                ok = False
                return False
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(sh("git -C %s diff" % w).stdout)
        diff = open(d + "/patch.diff").read().split("\n")
        orig = "\n".join(open(os.path.join(O, f)).read() for f in {e[0] for e in edits})
        minus = [l[1:] for l in diff if l.startswith("-") and not l.startswith("---")]
        if minus and not any(l in orig.split("\n") for l in minus if l.strip()):
            print(id, "CHANGES NO ORIGINAL LINE", minus[:2])
            ok = False
        if not minus and not any(l[1:] in orig.split("\n") for i, l in enumerate(diff) if l.startswith(" ") and l.strip() and ((i and diff[i - 1][:1] == "+") or diff[i + 1][:1] == "+")):
            print(id, "ADDS TO NO ORIGINAL LINE")
            ok = False
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if r.returncode == 0:
            print(id, "DEMO PASSES WITH THE CHANGE")
            ok = False
        else:
            print(id, "demo:", r.stdout.decode().strip().split("\n")[-1][:150])
        if tests and ok:
            sh(TESTS % {"w": w})
            b = json.load(open("/opt/vp/BASELINE.json"))
            o = json.load(open(w + "/out.json"))
            miss = set(b.get("passed") or b.get("stable") or b["tests"]) - set(o.get("passed") or [])
            if miss:
                print(id, "TESTS FAIL:", sorted(miss)[:5])
                ok = False
        if ok and os.path.exists(V + "/rules/%s.py" % prop.lower()):
            r = sh("cd %s; VERIF_REPO=%s python3 check.py %s" % (V, w, prop))
            out = r.stdout.decode()
            v = [l for l in out.split("\n") if "VIOLATED" in l]
            print(id, prop, "CAUGHT by" if r.returncode == 1 else "MISSED (exit %d)" % r.returncode, len(v), v[0][:230] if v else out[-200:])
    finally:
        sh("rm -rf %s" % w)
    if not ok:
        print(id, "NOT KEPT")
        sh("rm -r %s" % d)
    return ok


def batch(bugs, jobs=2):
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for _ in ex.map(lambda b: plant(*b), bugs):
            sys.stdout.flush()
