"""Test cases of the properties: what is run in the real preprocessor and judged by the specification.

CASES[id](rng, n) gives about n cases; the programs come from gen.py, the histories are made here.
"""
import os
import gen, dense, grammar, props_lang
from engine import one

SKIPS = ["0", "0", "0", "0", "1", "2", "3"]


def opts(rng, skip=True, trim=0.2, reduce=0.2):
    o = []
    if skip:
        k = rng.choice(SKIPS)
        if k != "0":
            o += ["--pp-skip-comments", k]
    if rng.random() < trim:
        o.append("--pp-no-trim-app-indent")
    if rng.random() < reduce:
        o.append("--pp-no-reduce-emptiness")
    return o


def lang(weights, modes=(("prog", 4), ("dense", 6), ("mut", 1), ("soup", 0.5)), dw=None, name=("t.c.yu",), depth=(1, 3)):
    """random programs of a profile, some of them damaged"""
    def f(rng, n):
        out = []
        names, w = [m for m, _ in modes], [k for _, k in modes]
        for _ in range(n):
            m = rng.choices(names, w)[0]
            g = gen.Gen(rng, weights)
            t = gen.soup(rng) if m == "soup" else dense.Dense(rng, dw).program(d=rng.randint(*depth)) if m == "dense" else g.program(d=rng.randint(*depth))
            if m == "mut":
                t = gen.mutate(rng, t)
            out.append(one(rng.choice(name), t, opts(rng)))
        return out
    return f


def deep(pid, budget=(4, 9), share=1.0, then=None, skip=()):
    """programs of the grammars of a property, beyond the budget of the enumeration, with those of another generator"""
    def f(rng, n):
        gs = [(lab, g) for lab, g, _, _ in props_lang.G[pid] if not any(x in lab for x in skip)]
        out = []
        for k in range(int(n * share)):
            _, g = gs[k % len(gs)]
            t = grammar.sample(g, rng, rng.randint(*budget))
            if rng.random() < 0.12:
                t = gen.mutate(rng, t)
            fs = g.get("files", [])
            if g.get("marks"):
                t, fs = grammar.marked(t, fs)
            out.append(one(g.get("name", "t.c.yu"), t, grammar.options(g) if rng.random() < 0.8 else opts(rng), files=fs, marks=bool(g.get("marks"))))
        return out + (then(rng, n - len(out)) if then else [])
    return f


# ---- imports: graphs of files over directories ----
NAMES = ["a", "b", "c", "d", "e-f"]
PLACES = ["", "s/", "inc/", "inc/sub/", "lib2/"]


def module(rng, d=0):
    q = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        n = rng.choice(NAMES)
        if k < 0.35:
            w = rng.choice(["", '"', "'", "{", "{s"])
            p = rng.choice(["", "", "", "sub/", "./", "s/", "inc/", "../"]) if w else ""
            e = rng.choice([".yu", ".yu", ".yu", "", ".txt"]) if w else ""
            q.append({"": "($import %s)" % n, '"': '($import "%s%s%s")' % (p, n, e), "'": "($import '%s%s%s')" % (p, n, e), "{": "($import { '%s%s' })" % (n, e), "{s": "($set nm (`%s%s))($import { nm })" % (n, e)}[w])
        elif k < 0.5:
            q.append("($set x %d)" % rng.randint(1, 9))
        elif k < 0.6:
            q.append("($set %s \\z.[%s<($z)($x)>])" % (rng.choice("fg"), rng.choice("pqr")))
        elif k < 0.7:
            q.append("($macro m (p) [($p)|($x)])" if rng.random() < 0.5 else "($m %d)" % rng.randint(1, 9))
        elif k < 0.8:
            q.append("($%s %d)" % (rng.choice("fg"), rng.randint(1, 9)))
        elif k < 0.9:
            q.append("[($x)]")
        elif k < 0.93:
            q.append(rng.choice(["($x", "($add 1)", "($__FILE__)", "($__MODULE_NAME__)", "($import stdlib)", "($import)", "($abs -2)"]))
        else:
            q.append(rng.choice(["w", "\n", "  v\n", "($! c)\n", "($let x 7 [($import \"%s.yu\")])" % n]))
    return rng.choice(["", "\n", "\n  "]).join(q) + rng.choice(["", "\n"])


def imports(rng, n):
    out = []
    for _ in range(n):
        files, mk = {}, ["s", "inc", "inc/sub", "lib2"]
        for _ in range(rng.randint(1, 6)):
            files[rng.choice(PLACES) + rng.choice(NAMES) + rng.choice([".yu", ".yu", ".yu", ".yu", "", ".txt"])] = module(rng)
        acyclic(files, rng)
        tops = []
        for k in range(rng.choice([1, 1, 2])):
            t = rng.choice(["t%d.c.yu", "s/t%d.c.yu", "lib2/t%d.yu"]) % k
            files[t] = "($set x 1)" + module(rng) + module(rng)
            tops.append(t)
        dirs = []
        for d in rng.sample(["inc", "lib2", "s", "inc/sub", "."], rng.randint(0, 3)):
            dirs += ["-d", d]
        c = {"files": [[k, v, False, 1] for k, v in files.items()], "mkdirs": mk, "cmds": [["cli", "-q", "-b", "0", "-l", "4", "--pp-no-reduce-emptiness"] + dirs + tops]}
        out.append(c)
    return out


def acyclic(files, rng):
    """a file imports only files of later names: no endless imports"""
    import re
    for k in list(files):
        me = NAMES.index(os.path.splitext(os.path.basename(k))[0])
        later = NAMES[me + 1:]
        def sub(m):
            nm = re.search(r"(?<![\w])(e-f|[abcd])(?=['\".) ]|$)", m[0][8:])
            if not nm or nm[1] in later:
                return m[0]
            if not later:
                return "-"
            i = 8 + nm.start(1)
            return m[0][:i] + rng.choice(later) + m[0][i + len(nm[1]):]
        files[k] = re.sub(r"\(\$import [^)]*\)|\(\$set nm [^)]*\)", sub, files[k])


# ---- errors in programs ----
def errors(rng, n):
    """a program broken in one place, with something before and in imported files"""
    out = []
    for _ in range(n):
        g = gen.Gen(rng, dict(macro=3, evalstr=2, set=5, app=8, plain=6, nl=8, comment=2, cond=3, loop=3, lam=3, let=3))
        t = g.program(d=rng.randint(1, 2))
        bad = rng.choice(props_lang.G["C12"][0][1]["rules"]["C"])[1]
        pre = "".join(rng.choice(props_lang.PRE12) for _ in range(rng.randint(0, 4)))
        k = rng.random()
        files = []
        if k < 0.4:
            ls = t.split("\n")
            ls.insert(rng.randint(0, len(ls)), rng.choice(["", " ", "\t", "a ", "  b\t"]) + bad + rng.choice(["", " z", "\n"]))
            t = pre + props_lang.DEF12 + "\n".join(ls)
        elif k < 0.6:
            files = [["q.yu", pre + bad + "\nx"], ["r.yu", "\n($set g \\x.[\n  %s])($macro mm (a) ($a)\n %s)" % (bad, bad)]]
            t = pre + props_lang.DEF12 + rng.choice(["($import q)", "($import r) ($g 1)", "($import r)\n ($mm 2)", "($import \"q.yu\")", "($ [($import r)($mm [\n])])"])
        elif k < 0.8:
            t = gen.mutate(rng, pre + t)
        else:
            t = pre + props_lang.DEF12 + rng.choice(["($macro k (a)\n <($a)>)\n ($k %s)", "($$ (` a\n %s))", "($ [\n\n %s])", "($let z (1 %s)\n [($z)])", "($ \\y.]\n %s\n[ 3)", "($macro k ()\n %s)\n\n($k)", "($set v %s)\n($v)", "($ 1 ?\n %s)", "($upper %s)", "($ (1 %s) \\e.($e))"]) % bad
        out.append(one("t.c.yu", t, opts(rng, trim=0.1, reduce=0.5), files=props_lang.FL10 + files))
    return out


def mixed(*parts):
    """parts: (share, generator)"""
    def f(rng, n):
        out = []
        for share, g in parts:
            out += g(rng, int(n * share))
        return out
    return f


CASES = {
    "C01": lang(dict(plain=30, nl=14, app=5, set=2, macro=1, comment=3, quote=4, lit=4, remark=6), modes=(("prog", 6), ("soup", 2), ("mut", 2))),
    "C02": lang(dict(code=16, app=14, lam=8, loop=6, cond=6, plain=6, builtin=2, infix=1)),
    "C03": lang(dict(set=12, let=14, lam=8, app=14, macro=2, plain=4, late=3, builtin=2, multi=2, boundvar=2)),
    "C04": lang(dict(lam=14, named=8, default=8, vararg=8, late=4, embed=6, curry=8, set=10, app=14, plain=4)),
    "C05": lang(dict(list=14, loop=14, embed=6, subscript=10, emit=8, multi=6, table=5, plain=3)),
    "C06": lang(dict(cond=24, infix=5, set=8, app=12, plain=3)),
    "C08": lang(dict(builtin=30, infix=20, app=14, set=6, plain=3, hexnum=3, loop=2, subscript=1), dw=dict(builtin=8, infix=8)),
    "C09": mixed((0.45, deep("C09")), (0.55, lang(dict(plain=12, nl=30, app=14, set=6, macro=3, comment=6, code=8, lam=4, loop=4, steady=6), modes=(("prog", 5), ("dense", 5)), dw=dict(layout=6, text=6)))),
    "C10": mixed((0.3, deep("C10", skip=("library",))), (0.7, imports)),
    "C12": mixed((0.3, deep("C12", (3, 6))), (0.7, errors)),
    "C13": deep("C13", (4, 9)),
    "C23": mixed((0.45, deep("C23", (4, 12))), (0.55, lang({}, modes=(("mut", 6), ("soup", 3), ("prog", 1))))),
    "C24": mixed((0.6, deep("C24", (4, 10))), (0.4, lang(dict(plain=20, lit=12, remark=10, nl=12, app=8), modes=(("prog", 4), ("dense", 2), ("soup", 2)), name=("t.py.yu", "t.py", "t.pyw.yu", "t.PY.yu", "t.yu-py")))),
    "C07": lang(dict(macro=14, evalstr=10, substr=12, app=14, set=6, plain=4, quote=3)),
}
SIZE = {}
