#!/usr/bin/env python3
"""check.py ID: decides a property on /repo's working tree (see DESIGN.md)."""
import collections, json, os, random, shutil, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import engine, grammar, hist, runner, tlc
import props

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


def replay_file(pid, k, what):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    if k == 0:
        for x in os.listdir(d):
            if x.startswith(pid + "-"):
                os.remove(os.path.join(d, x))
    p = os.path.join(d, "%s-%d.json" % (pid, k))
    with open(p, "w") as f:
        json.dump(what, f, indent=1, ensure_ascii=False)
    return p


class Check:
    def __init__(self, pid, tmp):
        self.pid = pid
        self.tmp = tmp
        self.quick = TIER != "thorough"
        self.rng = random.Random("%s %d" % (pid, SEED))
        self.states = self.transitions = self.traces = 0
        self.detail = collections.OrderedDict()
        self.samples = []
        self.violations = []     # (explanation, replay)
        self.known = []
        self.t0 = time.time()

    def note(self, k, v):
        self.detail[k] = v

    def violation(self, why, what):
        self.violations.append((why, what))

    def grammars(self, todo):
        """derives the program pairs of the grammars, checks their laws; gives the cases to replay"""
        if not todo:
            return []
        cap = props.CAP.get(self.pid, 260) if self.quick else 4000
        pairs, st, bad = grammar.derive([(g, q if self.quick else t) for _, g, q, t in todo], self.tmp, engine.LIB, timeout=500 if self.quick else 3000)
        self.states += st[1]
        self.transitions += st[0]
        for _ in range(6):
            # a law broken while Python has not answered is not one
            if not bad or not grammar.NEW[0]:
                break
            pairs, st, bad = grammar.derive([(g, q if self.quick else t) for _, g, q, t in todo], self.tmp, engine.LIB, timeout=500 if self.quick else 3000)
        again = list(range(len(todo)))
        for _ in range(6):
            # what Python was asked is answered now
            again = [k for k in again if todo[k][1]["law"] != "none" and any(x[0] == "unsup" for x in pairs[k])]
            if bad or not again or not grammar.NEW[0]:
                break
            p2, st2, bad = grammar.derive([(todo[k][1], todo[k][2] if self.quick else todo[k][3]) for k in again], self.tmp, engine.LIB, timeout=500 if self.quick else 3000)
            for j, k in enumerate(again):
                pairs[k] = p2[j]
            self.states += st2[1]
            self.transitions += st2[0]
        if bad:
            br = [(todo[k][0], x) for k, v in pairs.items() for x in v if x[0] == "broken"]
            raise tlc.TlcError("the specification breaks a law of its own: %s\n%s" % (br[:3], bad[:1500]))
        cases = []
        names = {}
        for k, (label, g, _, _) in enumerate(todo):
            v = sorted(pairs[k])
            names[label] = dict(law=g["law"], programs=len(v), outcomes=dict(collections.Counter(x[0] for x in v)))
            if not v:
                raise tlc.TlcError("no programs for " + label)
            if not g.get("keep"):
                v = [x for x in v if x[0] != "unsup"]
            if g.get("noast"):      # a tree with the whole library in its environments takes minutes to be printed
                v = [x for x in v if x[0] != "ast"]
            errs = [x for x in v if x[0] == "err"]
            v = [x for x in v if x[0] != "err"]
            v = v if len(v) <= cap else self.rng.sample(v, cap)
            v += errs if len(errs) <= cap // 3 else self.rng.sample(errs, cap // 3)
            o = grammar.options(g)
            seen = set()
            for r, a, b in v:
                for x in ([a, b] if g["law"] == "equiv" else [a]):
                    if x not in seen:
                        seen.add(x)
                        fs = g.get("files", [])
                        if g.get("marks"):
                            x, fs = grammar.marked(x, fs)
                        cases.append(engine.one(g.get("name", "t.c.yu"), x, o, files=fs, marks=bool(g.get("marks"))))
            names[label]["replayed"] = len(seen)
        self.note("grammars", names)
        return cases

    def histories(self, todo):
        """derives the histories of the scenarios, checks their laws; gives the cases to replay"""
        if not todo:
            return []
        scens = [dict(s, depth=q if self.quick else t) for _, s, q, t, _, _ in todo]
        res, st, bad = hist.derive(scens, self.tmp, engine.LIB, timeout=500 if self.quick else 3000)
        self.states += st[1]
        self.transitions += st[0]
        if bad:
            raise tlc.TlcError("the specification breaks a law of its own: %s" % bad[:3000])
        out, names = [], {}
        for k, (label, s, q, t, cq, ct) in enumerate(todo):
            v = sorted(res[k], key=str)
            cap = cq if self.quick else ct
            names[label] = dict(depth=scens[k]["depth"], commands=len(s["cmds"]), histories=len(v), outcomes=dict(collections.Counter(x[0] for x in v)))
            if not v:
                raise tlc.TlcError("no histories for " + label)
            v = v if s.get("mode") == "repl" else hist.observed(v)
            v = v if len(v) <= cap else self.rng.sample(v, cap)
            names[label]["replayed"] = len(v)
            cs = hist.cases(scens[k], v)
            for c in cs:
                c["iso"], c["marks"] = bool(s.get("iso")), bool(s.get("marks"))
            out += cs
        self.note("histories", names)
        return out

    def model(self, module, **k):
        """a model of its own with its invariants"""
        rc, out = tlc.run(module, {"LIB": engine.LIB}, tmp=self.tmp, timeout=600 if self.quick else 3000, **k)
        if "No error has been found" not in out:
            raise tlc.TlcError("%s: %s" % (module, out[-3000:]))
        st = tlc.states(out)
        self.states += st[1]
        self.transitions += st[0]
        self.note("model " + module, {"states": st[1], "transitions": st[0]})

    def conform(self, cases, label, **k):
        if not cases:
            return
        t = time.time()
        r = engine.conform(cases, self.tmp, **k)
        self.states += r.states[1]
        self.transitions += r.states[0]
        self.traces += r.count["ok"]
        self.samples += r.samples
        self.note(label, {"cases": r.n, "verdicts": dict(r.count), "behaviour": dict(r.cover), "seconds": round(time.time() - t, 1)})
        if r.spec_errors:
            self.note(label + ": specification cannot be evaluated", [{"case": c["files"], "error": e[:300]} for c, e in r.spec_errors[:3]])
        if r.n and r.count["ok"] + r.count["bad"] < r.n * 0.3:
            raise tlc.TlcError("too few cases of %s were judged: %s" % (label, dict(r.count)))
        for c, at, why in r.bad + r.leaks:
            self.violation("%s, command %d: %s" % (label, at, why),
                           {"files": c["files"], "mkdirs": c.get("mkdirs", []), "cmds": c["cmds"], "observed": c["obs"], "expected": why, "command": at})

    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": SEED, "level": props.LEVEL.get(self.pid, "model_checking"),
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6], "detail": self.detail, "exhaustive": False},
              "assumptions": props.ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for x in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, x))
        for k, (why, what) in enumerate(self.violations[:10]):
            p = replay_file(self.pid, k, what)
            print(("  " + why)[:600].replace("\n", "\\n"))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s: %s; %d states, %d transitions, %d histories of the implementation validated, %.0f s"
              % (self.pid, "broken" if self.violations else "held", self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def main():
    pid = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix="yuc-")
    try:
        c = Check(pid, tmp)
        # questions to Python that came up before: answered at once, in fewer rounds
        asked = os.path.join(ROOT, "harness", "asked", pid + ".json")
        for x in (os.path.join(ROOT, "harness", "asked", "all.json"), asked):
            if os.path.exists(x):
                with open(x) as f:
                    tlc.ask(json.load(f))
        if pid == "setup":
            return props.setup(c)
        try:
            props.run(c)
        except runner.WorkerError as e:
            c.violation("the preprocessor cannot be started: %s" % e, {"error": str(e)})
        if os.environ.get("VERIF_ASKED"):
            with open(asked, "w") as f:
                json.dump(sorted(tlc.TABLE), f, indent=0)
        return c.finish()
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
