"""Conformance of the real preprocessor to the specification."""
import collections, json, os, random, re, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import runner, tlc

LIB = os.path.join(ROOT, "spec", "lib.json")


def one(name, text, opts=(), files=(), **k):
    """A case: one source file, one quiet command."""
    d = {"files": [[name, text, False, 1]] + [[n, t, False, 1] for n, t in files],
         "cmds": [["cli", "-q", "-b", "0", "-l", "4", *opts, name]]}
    d.update(k)
    return d


def norm(case):
    case["files"] = [[f[0], f[1], (f[2] if len(f) > 2 else False), (f[3] if len(f) > 3 else 1)] for f in case["files"]]
    return case


EMPTY = {"rc": 0, "exc": "hang", "out": "", "tree": [], "lv": 9, "errs": 0, "locs": [], "cmp": False, "rest": "", "ok": False, "name": "", "data": "", "shrink": 0, "maps": []}


def observe(cases, tmp, batch=25, warm=True, timeout=20, workers=8):
    jobs = [{k: c[k] for k in ("files", "cmds", "mkdirs", "iso", "timeout", "keep") if k in c} for c in cases]
    ans = runner.run_jobs(jobs, tmp=tmp, batch=batch, warm=warm, timeout=timeout, workers=workers)
    for c, a in zip(cases, ans):
        c["obs"] = a.get("obs") or [dict(EMPTY, exc="hang" if a.get("hang") else "died") for _ in c["cmds"]]


class Result:
    def __init__(self):
        self.n = 0
        self.count = collections.Counter()
        self.bad = []          # (case, command, explanation)
        self.leaks = []        # disagree in a shared process only
        self.states = [0, 0]
        self.spec_errors = []
        self.samples = []
        self.cover = collections.Counter()

    def merge(self, o):
        self.n += o.n
        self.count += o.count
        self.bad += o.bad
        self.leaks += o.leaks
        self.states = [a + b for a, b in zip(self.states, o.states)]
        self.spec_errors += o.spec_errors
        self.samples += o.samples[:3]
        self.cover += o.cover


def shape(c):
    """What the real run of a case did, for coverage counts."""
    o = next((x for x in reversed(c["obs"]) if x), None)
    if o is None:
        return "none"
    if o["exc"]:
        return "refused" if o["exc"] == "SystemExit" else "exception"
    if any(t[0].endswith(".ast") for t in o["tree"]):
        return "ast"
    if o["locs"]:
        return "error at macro" if "\n  Macro" in o["locs"][0] else "error at place"
    if o["errs"] or o["rc"]:
        return "error"
    return "output"


def conform(cases, tmp, batch=25, confirm=8):
    """Runs the cases, has TLC judge them, confirms what is wrong in fresh processes."""
    r = Result()
    for c in cases:
        norm(c)
    observe(cases, tmp, batch=batch)
    verdict, st = tlc.judge(cases, LIB, tmp)
    r.n = len(cases)
    r.states = list(st)
    bad = []
    for i, c in enumerate(cases):
        v = verdict.get(i)
        if v is None:
            r.count["unjudged"] += 1
            continue
        r.count[v[1]] += 1
        if v[1] == "ok":
            r.cover[shape(c)] += 1
            if len(r.samples) < 3 and i % 37 == 5:
                r.samples.append({"files": c["files"][:2], "cmds": c["cmds"]})
        elif v[1] == "bad":
            bad.append((i, v))
        elif v[1] == "spec":
            r.spec_errors.append((c, v[2]))
    if bad:
        # what only takes long is not wrong: time enough for the confirmation
        hung = lambda i: any(o.get("exc") == "hang" for o in cases[i]["obs"] if o)
        bad.sort(key=lambda b: hung(b[0]))
        bad = [b for k, b in enumerate(bad) if k < confirm or not hung(b[0])]
        again = [dict(cases[i]) for i, _ in bad[:confirm]]
        observe(again, tmp, batch=1, warm=False, timeout=200)
        v2, _ = tlc.judge(again, LIB, tmp)
        for k, c in enumerate(again):
            v = v2.get(k)
            if v and v[1] == "bad":
                r.bad.append((c, v[0], v[2]))
            elif not hung(bad[k][0]):
                r.leaks.append((cases[bad[k][0]], bad[k][1][0], bad[k][1][2]))
    return r
