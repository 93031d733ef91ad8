"""Mutation of yupp against the programs and histories of the checks (a tool, not a check).

mutate.py dump CASES [ID...]                     the cases of the checks, with what the unchanged tree does
mutate.py list FILE N SEED > MUTANTS             N random mutants of a source file (one JSON per line: file, from, to, new, where)
mutate.py run CASES MUTANTS [SAMPLE]             which mutants are seen; those are judged by the specification
"""
import ast, collections, json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "harness")]
import engine, runner, tlc


def dump(path, ids):
    import check, props
    asked = os.path.join(ROOT, "harness", "asked")
    ids = ids or sorted(props.CLAIMED)
    with open(path, "a") as out:
        for pid in ids:
            t = time.time()
            tmp = tempfile.mkdtemp(prefix="yuc-")
            n = [0]

            def conform(cases, label, **k):
                for c in cases:
                    engine.norm(c)
                engine.observe(cases, tmp)
                for c in cases:
                    out.write(json.dumps(dict(c, pid=pid, label=label)) + "\n")
                n[0] += len(cases)
            try:
                c = check.Check(pid, tmp)
                c.conform = conform
                for x in ("all", pid):
                    p = os.path.join(asked, x + ".json")
                    if os.path.exists(p):
                        tlc.ask(json.load(open(p)))
                try:
                    props.run(c)
                except Exception as e:
                    print(pid, "raised", repr(e)[:300])
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            print(pid, n[0], "%.0f s" % (time.time() - t), flush=True)


CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}


def mutants(fn):
    src = open(fn, encoding="utf8").read()
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l.encode("utf8")))
    raw = src.encode("utf8")
    at = lambda l, c: starts[l - 1] + c
    res = []

    def put(a, b, new, what, line):
        res.append(dict(file=os.path.relpath(fn, "/repo"), a=a, b=b, old=raw[a:b].decode("utf8"), new=new, what=what, line=line))
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    text = lambda n: raw[slice(*span(n))].decode("utf8")
    for n in ast.walk(ast.parse(src)):
        if not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for o in CMP[type(n.ops[0])]:
                put(a, b, " %s " % o, "compare", n.lineno)
        if isinstance(n, ast.BoolOp):
            for k, v in enumerate(n.values):
                a, b = span(n)
                rest = [text(x) for j, x in enumerate(n.values) if j != k]
                op = " and " if isinstance(n.op, ast.And) else " or "
                put(a, b, "(" + op.join(rest) + ")", "operand away", n.lineno)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, ast.Constant):
            a, b = span(n.test)
            put(a, b, "not ( %s )" % text(n.test), "negated", n.lineno)
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            a, b = span(n)
            put(a, b, str(n.value + 1), "constant", n.lineno)
            if n.value == 1:
                put(a, b, "0", "constant", n.lineno)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, b = span(n)
            put(a, b, str(not n.value), "constant", n.lineno)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = span(n.left)[1], span(n.right)[0]
            put(a, b, " - " if isinstance(n.op, ast.Add) else " + ", "arithmetic", n.lineno)
            put(*span(n), text(n.left), "right side away", n.lineno)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(*span(n), "pass", "statement away", n.lineno)
        if isinstance(n, ast.Call) and n.args:
            for k, x in enumerate(n.args):
                if isinstance(x, ast.Name) and x.id not in ("self",):
                    put(*span(x), "None", "argument away", n.lineno)
            if len(n.args) >= 2:
                put(span(n.args[0])[0], span(n.args[1])[1], text(n.args[1]) + ", " + text(n.args[0]), "arguments swapped", n.lineno)
        if isinstance(n, ast.Attribute) and n.attr in ("strip", "rstrip", "lstrip"):
            a, b = span(n)
            for o in {"strip", "rstrip", "lstrip"} - {n.attr}:
                put(b - len(n.attr), b, o, "other strip", n.lineno)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                put(*span(n.slice.lower), "", "slice bound away", n.lineno)
    return res


KEEP = {"rc", "exc", "tree", "lv", "errs", "locs", "cmp", "rest", "ok", "name", "data", "shrink", "maps", "count"}


def view(obs):
    return json.dumps([o and {k: v for k, v in o.items() if k in KEEP or k == "out" and "rest" not in o} for o in obs], sort_keys=True)


TESTS = r"""
import sys, os, io
sys.path.insert(0, sys.argv[1])
import test_yup
bad = 0
for name, kit in list(vars(test_yup).items()):
    if name.startswith('t_') and name.endswith('_kit'):
        for i in range(1, len(kit) + 1):
            try:
                ok = test_yup.test(kit, {i}, 'x') == 0
            except BaseException:
                ok = False
            bad += not ok
os._exit(min(bad, 50))
"""


def run(path, muts, sample):
    byid = collections.defaultdict(list)
    for l in open(path):
        c = json.loads(l)
        byid[c["pid"]].append(c)
    rng = random.Random(5)
    cases = []
    for v in byid.values():
        rng.shuffle(v)
        cases += v[:sample]
    rng.shuffle(cases)
    base = [view(c["obs"]) for c in cases]
    print(len(cases), "cases", flush=True)
    tmp = tempfile.mkdtemp(prefix="mut-")
    jobs = [{k: c[k] for k in ("files", "cmds", "mkdirs", "iso", "keep") if k in c} for c in cases]
    w = os.path.join(tmp, "w")
    copy = lambda: shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "doc", "ide", "*.pyc"), symlinks=True)
    copy()
    runner.REPO = w
    ans = runner.run_jobs([dict(j) for j in jobs], tmp=tmp)
    ok = [k for k, a in enumerate(ans) if view(a.get("obs") or [0]) == base[k]]
    print(len(ok), "reproducible", flush=True)
    out = open(os.path.splitext(muts)[0] + ".done", "a")
    seen = {json.dumps([d["file"], d["a"], d["b"], d["new"]]) for d in map(json.loads, open(out.name))}
    for l in open(muts):
        m = json.loads(l)
        if json.dumps([m["file"], m["a"], m["b"], m["new"]]) in seen:
            continue
        t = time.time()
        shutil.rmtree(w, ignore_errors=True)
        copy()
        q = os.path.join(w, m["file"])
        raw = open(q, "rb").read()
        raw = raw[:m["a"]] + m["new"].encode("utf8") + raw[m["b"]:]
        open(q, "wb").write(raw)
        res = None
        try:
            compile(raw, q, "exec")
        except SyntaxError:
            res = "syntax"
        if res is None:
            try:
                p = subprocess.run(["/opt/venv/bin/python", "-c", TESTS, w], capture_output=True, timeout=60, cwd=w, env=runner.env())
                res = None if p.returncode == 0 else "tests"
            except subprocess.TimeoutExpired:
                res = "tests"
        if res is None:
            runner.REPO = w
            step, at, diff = 1500, 0, []
            try:
                while at < len(ok) and res is None:
                    part = ok[at:at + step]
                    at += step
                    a = runner.run_jobs([dict(jobs[k]) for k in part], tmp=tmp, timeout=8)
                    diff = [(k, x) for k, x in zip(part, a) if view(x.get("obs") or [0]) != base[k]]
                    if diff:
                        cs = []
                        for k, x in diff[:60]:
                            cs.append(dict(cases[k], obs=x.get("obs") or [dict(engine.EMPTY, exc="hang" if x.get("hang") else "died") for _ in cases[k]["cmds"]]))
                        v, _ = tlc.judge(cs, engine.LIB, tmp)
                        bad = [cs[i] for i in v if v[i][1] == "bad"]
                        if bad:
                            res = "killed %d/%d of %d at %d by %s" % (len(bad), len(cs), len(diff), at, ",".join(sorted({c["pid"] for c in bad})))
                    if res is None and at >= 4 * step and not diff:
                        step = 6000
            except runner.WorkerError as e:
                res = "worker"
            if res is None:
                res = "ALIVE" + (" (seen %d, not wrong)" % len(diff) if diff else "")
        m["res"] = res
        out.write(json.dumps(m) + "\n")
        out.flush()
        print("%-28s %s:%d %s %r -> %r  %.0f s" % (res[:60], m["file"], m["line"], m["what"], m["old"][:60], m["new"][:60], time.time() - t), flush=True)
    shutil.rmtree(tmp, ignore_errors=True)


if sys.argv[1] == "dump":
    dump(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "list":
    v = mutants(sys.argv[2])
    print(len(v), "possible", file=sys.stderr)
    v = [x for x in v if len(x["old"]) < 400]
    lo, hi = (map(int, sys.argv[5].split("-")) if len(sys.argv) > 5 else (0, 10 ** 6))
    v = [x for x in v if lo <= x["line"] <= hi]
    for x in random.Random(int(sys.argv[4])).sample(v, min(len(v), int(sys.argv[3]))):
        print(json.dumps(x))
elif sys.argv[1] == "run":
    runner.REPO = "/repo"
    p = os.path.splitext(sys.argv[3])[0] + ".done"
    open(p, "a").close()
    run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 9)
