"""Runs TLC on a module of /verif/spec and reads what it prints."""
import json, os, re, shutil, subprocess, tempfile

PY = "/opt/venv/bin/python"     # the Python that runs yupp is the one to be asked

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, env=None, cfg=None, workers=8, timeout=600, args=(), heap="10g", tmp=None):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=tmp)
    e = dict(os.environ)
    e["LIBTREES"] = os.path.join(SPEC, "libtrees.json")
    e.update(env or {})
    if "ORACLE" not in e:
        e["ORACLE"] = os.path.join(meta, "oracle.json")
        with open(e["ORACLE"], "w") as f:
            json.dump(TABLE or {"": ["u", ""]}, f)
    try:
        p = subprocess.run(["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-cp", JARS, "tlc2.TLC",
                            "-workers", str(workers), "-metadir", meta, "-config", cfg or module + ".cfg", "-noGenerateSpecTE", *args, module + ".tla"],
                           cwd=SPEC, env=e, capture_output=True, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


V = re.compile(r'^<<"V", (\d+), (\d+), "(\w+)", (".*")>>$', re.M)
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def states(out):
    m = STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def unjson(s):
    return json.loads(json.loads(s))


ASK = re.compile(r'^<<"ASK", (".*")>>$', re.M)
TABLE = {}     # the answers of Python so far


def answer(out):
    """answers the questions of a run; gives how many are new"""
    return ask(json.loads(m) for m in ASK.findall(out))


def ask(q):
    """answers questions beforehand"""
    q = sorted(set(q) - set(TABLE))
    if q:
        p = subprocess.run([PY, os.path.join(HERE, "oracle.py")], input=json.dumps(q).encode(), stdout=subprocess.PIPE, check=True,
                           env=dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore"), cwd="/")
        TABLE.update(zip(q, json.loads(p.stdout)))
    return len(q)


def judge(cases, lib, tmp, workers=8, timeout=800):
    """judge0, again for what Python has to be asked for"""
    verdict, st, asked = judge0(list(range(len(cases))), cases, lib, tmp, workers, timeout)
    for _ in range(6):
        if not asked:
            break
        todo = [i for i in range(len(cases)) if verdict.get(i, (0, "unsup"))[1] != "ok"]
        v, s, asked = judge0(todo, cases, lib, tmp, workers, timeout)
        verdict.update(v)
        st = (st[0] + s[0], st[1] + s[1])
    return verdict, st


def judge0(todo, cases, lib, tmp, workers=8, timeout=800):
    """MC_Run over cases: {index: (command number, verdict, explanation)}, (states generated, distinct), new questions."""
    asked = 0
    verdict = {}
    gen = dis = 0
    rounds = 0
    while todo:
        rounds += 1
        path = os.path.join(tmp, "cases.ndjson")
        with open(path, "w") as f:
            for i in todo:
                c = cases[i]
                f.write(json.dumps({"files": c["files"], "mkdirs": c.get("mkdirs", []), "cmds": c["cmds"], "obs": c["obs"], "marks": bool(c.get("marks"))}) + "\n")
        rc, out = run("MC_Run", {"CASES": path, "LIB": lib}, workers=workers, timeout=timeout, tmp=tmp)
        asked += answer(out)
        g, d = states(out)
        gen += g
        dis += d
        seen = set()
        for m in V.finditer(out):
            i = todo[int(m[1]) - 1]
            verdict[i] = (int(m[2]), m[3], unjson(m[4]))
            seen.add(i)
        if "Model checking completed. No error has been found." in out:
            break
        # an evaluation error of the specification on one case: set that case aside
        m = re.findall(r"^/\\ vCase = (\d+)", out, re.M)
        if not m or rounds > 40:
            raise TlcError(out[-4000:])
        bad = todo[int(m[-1]) - 1]
        k = out.find("Error:")
        verdict[bad] = (0, "spec", out[k:k + 600])
        seen.add(bad)
        todo = [i for i in todo if i not in verdict]
    return verdict, (gen, dis), asked
