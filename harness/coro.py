"""C22: coroutines written with the libraries behave as the coroutines of YCoro.

Programs are written with the libraries, expanded by yupp, compiled (C) or run (Python), and put through the schedules TLC has explored.
"""
import concurrent.futures, itertools, json, os, re, subprocess
import engine, runner, tlc

CO = re.compile(r'^<<"CO", (\d+), (".*"), (".*")>>$', re.M)
LEAVES = ["act", "yield", "wait", "waitnot", "acq", "rel", "quit", "restart", "waitco", "set"]
KINDS = ("c", "macro", "py")


def leaf(rng, kind, c):
    while True:
        t = rng.choice(["act", "act", "yield", "yield", "yield", "wait", "wait", "waitnot", "acq", "rel", "quit", "restart", "waitco", "set"])
        if t == "restart" and kind == "py" or t == "waitco" and c != "a":
            continue
        return [t] + ([0] if t == "act" else [rng.randrange(2)] if t == "set" else ["b"] if t == "waitco" else [])


def body(rng, kind, c, n, depth=0):
    b = []
    for _ in range(n):
        r = rng.random()
        if depth < 2 and r < 0.25:
            b.append(["loop", rng.randrange(4), body(rng, kind, c, rng.randrange(1, 4), depth + 1)])
        elif depth < 2 and r < 0.35:
            b.append(["if", body(rng, kind, c, rng.randrange(1, 3), depth + 1)])
        else:
            b.append(leaf(rng, kind, c))
            if rng.random() < 0.4:
                b.append(["act", 0])
    return b


def number(b, n):
    """the acts get numbers of their own"""
    for t in b:
        if t[0] == "act":
            n[0] += 1
            t[1] = n[0]
        elif t[0] in ("loop", "if"):
            number(t[-1], n)


def programs(rng, count):
    out = []
    for k in range(count):
        kind = KINDS[k % 3]
        size = 1 + k * 6 // count
        p = {"kind": kind, "body": {"a": body(rng, kind, "a", size), "b": body(rng, kind, "b", rng.randrange(1, size + 2))}, "depth": 6 if k % 4 else 7}
        out.append(p)
    for k, (x, y) in enumerate(itertools.product(LEAVES, repeat=2)):
        kind = KINDS[k % 3]
        if kind == "py" and "restart" in (x, y):
            kind = "c"
        f = lambda t: [t] + ([0] if t == "act" else [1] if t == "set" else ["b"] if t == "waitco" else [])
        out.append({"kind": kind, "body": {"a": [["act", 0], f(x), ["act", 0], f(y), ["act", 0]], "b": [["act", 0], ["yield"], ["act", 0]]}, "depth": 5})
    for p in out:
        n = [0]
        for c in "ab":
            number(p["body"][c], n)
        py = p["kind"] == "py"
        for w in ("enter", "exit"):
            p[w] = {c: not py and rng.random() < 0.6 for c in "ab"}
        p["names"] = rng.choice([["A", "B"], ["a", "b"], ["tx_1", "rx"], ["E", "END"]])
        p["seed"] = rng.randrange(10 ** 9)
    return out


class Render:
    def __init__(self, p, rng):
        self.p, self.rng = p, rng
        self.name = dict(zip("ab", p["names"]))
        self.n = 0

    def c(self, b, tab, count):
        out = []
        for t in b:
            k = t[0]
            if k == "act":
                s = 'printf( "%d " );' % t[1]
            elif k == "set":
                s = "x = %d;" % t[1]
            elif k in ("wait", "waitnot"):
                cond = "x > 0" if k == "wait" else "!( x > 0 )"
                s = self.rng.choice(["($coro-wait,,%s);", "($coro-wait [%s]);", "($coro-wait,,%s );"]) % cond
            elif k == "acq":
                s = "($semaphore-acquire s);"
            elif k == "rel":
                s = "($semaphore-release s);"
            elif k == "waitco":
                s = "($coro-wait-coro ($coro-call %s));" % self.name[t[1]]
            elif k in ("yield", "quit", "restart"):
                s = "($coro-%s);" % k
            elif k == "loop":
                self.n += 1
                i = "i%d" % self.n
                count.append(i)
                s = "for ( %s = 0; %s < %d; %s++ ) {\n%s\n%s}" % (i, i, t[1], i, self.c(t[2], tab + "\t", count), tab)
            elif len(t[1]) == 1 and t[1][0][0] not in ("loop", "if") and self.rng.random() < 0.5:
                s = "if ( x > 0 )\n%s" % self.c(t[1], tab + "\t", count)
            else:
                s = "if ( x > 0 ) {\n%s\n%s}" % (self.c(t[1], tab + "\t", count), tab)
            out.append(tab + s)
        return "\n".join(out)

    def coro_c(self, c):
        p, count = self.p, []
        b = self.c(p["body"][c], "\t", count)
        ent = (["\t($coro-local) int %s;" % i for i in count]) + (['\tprintf( "<%s " );' % c] if p["enter"][c] else [])
        parts = ["($coro-define %s ]\n%s\n[" % (self.name[c], b)]
        named = []
        if ent:
            named.append(" \\enter ]\n%s\n[" % "\n".join(ent))
        if p["exit"][c]:
            named.append(" \\exit ]\n\tprintf( \">%s \" );\n[" % c)
        self.rng.shuffle(named)
        return "".join(parts + named) + " )\n"

    def source_c(self, hists):
        a, b = self.name["a"], self.name["b"]
        s = "($set corolib-use-c-macro %d)($import corolib)\n" % (self.p["kind"] == "macro") if self.p["kind"] == "macro" or self.rng.random() < 0.3 else self.rng.choice(["($import coroutine)\n", "($import corolib)\n"])
        s += "($coro-h)\n#include <stdio.h>\n\nint x;\nsemaphore_t s;\n($coro-context %s);\n($coro-context %s);\n" % (a, b)
        order = [self.coro_c("a"), self.coro_c("b")]
        if self.rng.random() < 0.5:
            s += "($coro-declare %s);\n($coro-declare %s);\n" % (a, b) + "\n".join(order)
        else:
            s += "\n".join(reversed(order))
        s += "\nstatic void run( const char *h )\n{\n\tx = 0;\n\t($semaphore-init s 1);\n\t($coro-context-init %s);\n\t($coro-context-init %s);\n\tfor ( ; *h; h++ ) {\n" % (a, b)
        s += "\t\tif ( *h == 'a' ) printf( \"=%%d \", ($coro-call %s) );\n\t\telse if ( *h == 'b' ) printf( \"=%%d \", ($coro-call %s) );\n\t\telse x = *h - '0';\n\t}\n\tprintf( \"\\n\" );\n}\n" % (a, b)
        s += "int main( void )\n{\n%s\treturn ($coro-alive 3) + !($coro-alive CO_YIELD);\n}\n" % "".join("\trun( (`\"%s\") );\n" % "".join(h) if False else "\trun( \"%s\" );\n" % "".join(h) for h in hists)
        return s

    def py(self, b, tab):
        out = []
        for t in b:
            k = t[0]
            if k == "act":
                s = "say( '%d' )" % t[1]
            elif k == "set":
                s = "x = %d" % t[1]
            elif k == "wait":
                s = self.rng.choice(["($coro-wait,,x > 0)", "($coro-wait [x > 0])"])
            elif k == "waitnot":
                s = self.rng.choice(["($coro-wait-not,,x > 0)", "($coro-wait,,not x > 0)"])
            elif k == "acq":
                s = "($coro-wait,,s > 0)\n%ss -= 1" % tab
            elif k == "rel":
                s = "s += 1"
            elif k == "waitco":
                s = "while ($coro-alive ($coro-call %s)): yield CO_WAIT" % self.name[t[1]]
            elif k in ("yield", "quit"):
                s = "($coro-%s)" % k
            elif k == "loop":
                self.n += 1
                s = "for i%d in range( %d ):\n%s" % (self.n, t[1], self.py(t[2], tab + "    "))
            else:
                s = "if x > 0:\n%s" % self.py(t[1], tab + "    ")
            out.append(tab + s)
        return "\n".join(out)

    def source_py(self, hists):
        s = "from __future__ import print_function\n($import coroutine-py)\n\nx = 0\ns = 1\nlog = []\n\ndef say( w ):\n    log.append( w )\n\n"
        for c in "ab":
            s += "def ($coro %s):\n    global x, s\n%s\n    ($coro-quit)\n\n" % (self.name[c], self.py(self.p["body"][c], "    "))
        a, b = self.name["a"], self.name["b"]
        s += "def run( h ):\n    global x, s, %s, %s\n    x = 0\n    s = 1\n    del log[ : ]\n    ($coro-init %s)\n    ($coro-init %s)\n    for q in h:\n        if q == 'a':\n            st = ($coro-call %s)\n            say( '=%%d' %% st )\n        elif q == 'b':\n            st = ($coro-call %s)\n            say( '=%%d' %% st )\n        else:\n            x = int( q )\n    ($coro-uninit %s)\n    ($coro-uninit %s)\n    assert not ($coro-alive CO_END) and ($coro-alive CO_WAIT)\n    return ' '.join( log )\n" % (a, b, a, b, a, b, a, b)
        return s


PYRUN = r"""
import json, signal, sys
todo = json.load(sys.stdin)
out = []
for code, hists in todo:
    res = []
    ns = {"__name__": "coro"}
    try:
        exec(compile(code, "generated", "exec"), ns)
    except Exception as e:
        out.append(["%s: %s" % (type(e).__name__, e)])
        continue
    for h in hists:
        signal.alarm(10)
        try:
            res.append(ns["run"](h))
        except Exception as e:
            res.append("%s: %s" % (type(e).__name__, e))
        signal.alarm(0)
    out.append(res)
json.dump(out, sys.stdout)
"""


def shown(log):
    m = {"act": "%s", "enter": "<%s", "leave": ">%s", "is": "=%s"}
    return " ".join(m[e[0]] % e[1] for e in log)


def run(c, count, hists):
    import random
    progs = programs(c.rng, count)
    path = os.path.join(c.tmp, "progs.json")
    with open(path, "w") as f:
        json.dump(progs, f)
    rc, out = tlc.run("MC_Coro", {"PROGS": path}, timeout=600 if c.quick else 3000, tmp=c.tmp)
    if "No error has been found" not in out:
        raise tlc.TlcError("MC_Coro: " + out[-3000:])
    st = tlc.states(out)
    c.states += st[1]
    c.transitions += st[0]
    runs = [[] for _ in progs]
    for m in CO.finditer(out):
        runs[int(m[1]) - 1].append(("".join(tlc.unjson(m[2])), shown(tlc.unjson(m[3]))))
    jobs, src = [], []
    for p, r in zip(progs, runs):
        r.sort()
        if len(r) > hists:
            r[:] = c.rng.sample(r, hists)
        rd = Render(p, random.Random(p["seed"]))
        py = p["kind"] == "py"
        src.append((rd.source_py if py else rd.source_c)([h for h, _ in r]))
        jobs.append({"files": [["p.py.yu" if py else "p.c.yu", src[-1], False, 1]], "cmds": [["cli", "-q", "-b", "0", "p.py.yu" if py else "p.c.yu"]]})
    ans = runner.run_jobs(jobs, tmp=c.tmp, timeout=60)
    got = [None] * len(progs)
    text = [next((t[1] for t in a.get("obs", [{"tree": []}])[0]["tree"] if t[0] in ("p.c", "p.py")), None) for a in ans]
    with open(os.path.join(runner.REPO, "lib", "coroutine.h")) as f:
        header = f.read()
    with open(os.path.join(c.tmp, "coroutine.h"), "w") as f:
        f.write(header)

    def compiled(k):
        n = os.path.join(c.tmp, "co%d" % k)
        with open(n + ".c", "w") as f:
            f.write(text[k])
        p = subprocess.run(["gcc", "-O0", "-w", "-I", c.tmp, "-o", n, n + ".c"], capture_output=True, text=True)
        if p.returncode:
            if not os.path.exists("/usr/bin/gcc"):
                raise tlc.TlcError("no compiler")
            return ["does not compile: " + p.stderr[:600]]
        try:
            p = subprocess.run([n], capture_output=True, text=True, timeout=20)
            q = [x.strip() for x in p.stdout.split("\n")][:-1]
            return q + ([] if p.returncode == 0 else ["status %d" % p.returncode])
        except subprocess.TimeoutExpired:
            return ["does not end"]
        finally:
            for x in (n, n + ".c"):
                if os.path.exists(x):
                    os.remove(x)
    cs = [k for k in range(len(progs)) if progs[k]["kind"] != "py" and text[k] is not None]
    ps = [k for k in range(len(progs)) if progs[k]["kind"] == "py" and text[k] is not None]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for k, r in zip(cs, ex.map(compiled, cs)):
            got[k] = r
    p = subprocess.run([runner.PY, "-c", PYRUN], input=json.dumps([[text[k], [h for h, _ in runs[k]]] for k in ps]), capture_output=True, text=True, env=runner.env(), cwd=c.tmp)
    if p.returncode:
        raise tlc.TlcError("generated Python cannot be run: " + p.stderr[-800:])
    for k, r in zip(ps, json.loads(p.stdout)):
        got[k] = r
    good = 0
    for k, pr in enumerate(progs):
        want = [w for _, w in runs[k]]
        if got[k] == want:
            good += len(want)
            continue
        j = next((j for j in range(len(want)) if got[k] is None or j >= len(got[k]) or got[k][j] != want[j]), len(want) - 1)
        g = "not expanded" if got[k] is None else (got[k] + ["nothing"])[min(j, len(got[k]))]
        c.violation("coroutines (%s), schedule %s: expected %s, got %s" % (pr["kind"], runs[k][j][0], want[j], g),
                    {"source": src[k], "generated": text[k], "schedules": [h for h, _ in runs[k]], "expected": want, "got": got[k], "log": ans[k].get("obs", [{"out": ""}])[0].get("out", "")[-2000:]})
    c.traces += good
    c.samples += [{"source": src[k][:1500], "schedule": runs[k][0]} for k in (0, 1, 2)]
    c.note("coroutines", {"programs": {q: sum(p["kind"] == q for p in progs) for q in KINDS}, "schedules explored": st[1], "schedules run": good})
