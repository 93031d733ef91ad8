"""seed.py FILE.py ...: plants the bugs described in the files, confirms them, keeps them under /verif/seeded.

A description sets BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=PYTHON)].
The demonstration is Python with run(files, *args, cmd=...) -> (status, {name: text}, printed) at hand, which runs yupp in a scratch directory.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
REPO = os.environ.get("SEED_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''#!/bin/bash
# exit 0: the behaviour is as it should be
exec /opt/venv/bin/python - <<'PYTHON_DEMO'
import os, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
ENV = dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=REPO)
CLI = "import sys; sys.path.insert(0, %r); import pp.yup as y; sys.exit(y.cli(sys.argv[1:]))" % REPO
def run(files, *args, code=None, stdin="", keep=None, timeout=60):
    """runs yupp on the files in a scratch directory: (status, {name: text}, what is printed)"""
    d = keep or tempfile.mkdtemp(prefix="demo-")
    try:
        for n, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            with open(os.path.join(d, n), "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("utf8"))
        p = subprocess.run([sys.executable, "-c", code or CLI] + list(args), cwd=d, env=ENV, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        tree = {}
        for top, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(top, f)
                with open(q, "rb") as h:
                    tree[os.path.relpath(q, d)] = h.read().decode("utf8", "replace")
        return p.returncode, tree, p.stdout.decode("utf8", "replace")
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
def text(src, *opts, files=None):
    """the output for one source"""
    st, tree, out = run(dict(files or {}, **{"t.c.yu": src}), "-q", "--pp-no-reduce-emptiness", *opts, "t.c.yu")
    return tree.get("t.c")
def expect(got, want):
    if got != want:
        print("expected %r\n     got %r" % (want, got))
        sys.exit(1)
'''
POST = "\nPYTHON_DEMO\n"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def plant(b):
    d = os.path.join(ROOT, "seeded", b["id"])
    tmp = tempfile.mkdtemp()
    try:
        assert not sh("git", "-C", REPO, "status", "--short").stdout.strip(), "dirty"
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(PRE + b["demo"].strip("\n") + POST)
        p = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
        if p.returncode:
            return "demo fails on the unchanged tree: " + (p.stdout + p.stderr)[-800:]
        try:
            for f, old, new in b["edits"]:
                q = os.path.join(REPO, f)
                s = open(q, encoding="utf8", newline="").read()
                if s.count(old) != 1:
                    return "%d places of %r" % (s.count(old), old)
                open(q, "w", encoding="utf8", newline="").write(s.replace(old, new))
            diff = sh("git", "-C", REPO, "diff").stdout
            p = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
            if p.returncode == 0:
                return "demo passes with the change"
            why = p.stdout[-300:]
            q = sh("bash", "/opt/vp/build.sh") if REPO == "/repo" else None
            if q and q.returncode:
                return "does not build: " + q.stdout[-300:]
            o = tests(tmp)
            base = json.load(open("/opt/vp/BASELINE.json"))
            if stable(o) != stable(base) and not stable(base) <= stable(o):
                return "tests fail: %s" % sorted(stable(base) - stable(o))[:3]
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        return "ok   " + why.replace("\n", " | ")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.exists(os.path.join(d, "patch.diff")):
            shutil.rmtree(d, ignore_errors=True)


def tests(tmp):
    """the results of the tests; in a copy of the repository by the same script with the folder replaced"""
    if REPO == "/repo":
        sh("bash", "/opt/vp/test.sh", tmp + "/o.json")
        return json.load(open(tmp + "/o.json"))
    with open("/opt/vp/run_kits.py") as f:
        k = f.read().replace("'/repo'", repr(REPO))
    with open(tmp + "/k.py", "w") as f:
        f.write(k)
    sh("/opt/venv/bin/python", tmp + "/k.py", tmp + "/r", cwd=REPO, env=dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
    with open(tmp + "/r") as f:
        return [l[5:].strip() for l in f if l.startswith("PASS ")]


def stable(o):
    if isinstance(o, dict):
        for k in ("passed", "stable", "pass"):
            if isinstance(o.get(k), list):
                return set(map(str, o[k]))
        t = o.get("tests", o)
        return {k for k, v in t.items() if v in ("passed", "pass", True)}
    return set(map(str, o))


for fn in sys.argv[1:]:
    for b in runpy.run_path(fn)["BUGS"]:
        if os.path.exists(os.path.join(ROOT, "seeded", b["id"], "patch.diff")) and "-f" not in os.environ.get("SEED", ""):
            continue
        print(b["id"], plant(b), flush=True)
