"""Random yupp programs.

A profile is a dict of weights; the same generator serves every language property, each with its own profile.
Names carry a kind (int, str, list, fn, macro, text) so that most programs mean something; a small share is broken on purpose.
"""
import random

WORDS = ["a", "b", "x1", "foo", "n_", "K", "val", "zed", "i", "tmp-a", "U8", "re", "u", "r2"]
PLAIN = ["int ", "x = ", ";", " + ", "return", "{", "}", "[0]", "(1)", "a, b", "-- ", "$ ", "\\", "?|", "it", " ", "  ", "\t", ":", ",", "f(y)", "0x1F", "&q", "#if", "//c ", "/*k*/", "e.g.", "`", "_", "end", "\u00e9", "(", ")", "]", "r", "ur ", "é\u00a0"]
SAFE = ["int ", "x = ", ";", " + ", "return", "a, b", "-- ", "it", " ", ":", "f", "0x1F", "&q", "e.g.", "_", "end", "==", "1", "K"]
RAWS = ["abc", "", "x y", "($a)", "q(1)w", "\"z\"", "1", "-7", "a\\n", "k;v", "Hello", "  pad ", "a,b,,c", "aXbXc"]
LITS = ['"abc"', '"a b"', '"x\\ny"', '""', "'c'", '"($a)"', '"q\\"w"', '"Hi"', "'a b'"]


class Gen:
    def __init__(self, rng, w=None, py=False):
        self.r = rng
        self.w = dict(set=6, macro=3, app=10, plain=12, comment=1, quote=1, lit=2, nl=10, let=2, loop=4, cond=4, infix=3,
                      lam=4, builtin=6, evalstr=1, emit=1, broken=0.02, remark=1, named=2, default=2, vararg=1, late=1,
                      embed=1, region=1, list=4, substr=1, code=4, multi=1, boundvar=1, lazy=0.3, subscript=2, special=0.5,
                      hexnum=0.3, curry=1, imp=0, indent=4, skipf=0, passage=0, isatom=0.3, table=0)
        self.w.update(w or {})
        self.py = py
        self.scopes = [[]]      # [(name, kind, extra)]
        self.n = 0
        self.imports = []

    # -- helpers
    def ch(self, *opts):
        """opts: (weight, thunk)"""
        opts = [(w, f) for w, f in opts if w > 0]
        t = self.r.random() * sum(w for w, _ in opts)
        for w, f in opts:
            t -= w
            if t <= 0:
                return f()
        return opts[-1][1]()

    def p(self, x):
        return self.r.random() < x

    def pick(self, q):
        return self.r.choice(q)

    def gap(self):
        return self.ch((8, lambda: " "), (1, lambda: "  "), (1, lambda: "\n  "), (0.5, lambda: "\t"))

    def name(self):
        if self.p(0.35) and self.visible():
            return self.pick(self.visible())[0]
        return self.pick(WORDS) + (str(self.r.randrange(3)) if self.p(0.3) else "")

    def visible(self, kind=None):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v[0] not in seen:
                    seen.add(v[0])
                    if kind is None or v[1] == kind:
                        out.append(v)
        return out

    def define(self, name, kind, extra=None):
        self.scopes[-1].append((name, kind, extra))

    def scoped(self, names, f):
        self.scopes.append([n if isinstance(n, tuple) else (n, self.pick(["int", "str", "any"]), None) for n in names])
        try:
            return f()
        finally:
            self.scopes.pop()

    # -- plain text
    def plain(self):
        return "".join(self.pick(PLAIN if self.p(0.4) else SAFE) for _ in range(self.r.randrange(1, 4)))

    def balanced(self, s):
        """no brackets that would end a code fragment early, most of the time"""
        if self.p(0.03):
            return s
        for c in "()[]{}":
            s = s.replace(c, "")
        return s.replace(",,", ",")

    # -- forms
    def form(self, kind="any", d=3):
        if self.p(self.w["broken"]):
            return self.pick(["undef", "($undef 1)", "()", "(", "", "&late", "$", "($add 1)", "5 5", "\\", "none::x"])
        if kind == "any":
            kind = self.pick(["int", "str", "list", "text", "fn", "int", "str"])
        if d > 0 and self.p(0.12 * (self.w["cond"] / 4)):
            return self.cond(kind, d - 1)
        if d > 0 and self.p(0.05 * self.w["let"] / 2):
            return self.let(kind, d - 1)
        return getattr(self, "f_" + kind, self.f_int)(d)

    def cond(self, kind, d):
        c = self.ch((3, lambda: self.form("int", d)), (1, lambda: self.form("str", d)), (1, lambda: self.form("list", d)), (2, lambda: "0"), (2, lambda: "1"))
        a = self.form(kind, d)
        b = self.form(kind, d)
        s = a + self.pick([" ? ", "?", "\n  ? "]) + c
        if self.p(0.85):
            s += self.pick([" | ", "|"]) + (self.cond(kind, d - 1) if d > 0 and self.p(0.25) else b)
        return s

    def var(self, kind):
        q = self.visible(kind)
        if not q:
            return None
        v = self.pick(q)[0]
        return v

    def f_any(self, d):
        return self.form("any", d)

    def f_int(self, d):
        v = self.var("int") if self.p(0.5) else None
        if v:
            return v
        if d <= 0:
            return str(self.r.randrange(-9, 30)) if not self.p(0.1 * self.w["hexnum"]) else self.pick(["0x1F", "0b101", "0o17", "+5", "0"])
        return self.ch(
            (5, lambda: str(self.r.randrange(-9, 30))),
            (self.w["hexnum"], lambda: self.pick(["0x1F", "0XaB", "0b101", "0o17", "+5", "- 3", "0", "7L", "00"])),
            (self.w["builtin"], lambda: self.b_int(d - 1)),
            (self.w["infix"], lambda: self.infix(d - 1)),
            (self.w["subscript"] / 2, lambda: self.subscript("int", d - 1)),
            (self.w["isatom"], lambda: "($isatom %s)" % self.form("any", 0)),
            (self.w["app"] / 4, lambda: self.app_fn("int", d - 1)))

    def f_str(self, d):
        v = self.var("str") if self.p(0.5) else None
        if v:
            return v
        if d <= 0:
            return self.pick(LITS) if self.p(0.5) else "(`" + self.pick(RAWS) + ")"
        return self.ch(
            (4, lambda: self.pick(LITS)),
            (3, lambda: "(`" + self.pick(RAWS) + ")"),
            (self.w["code"], lambda: self.code(d - 1)),
            (self.w["builtin"] / 1.5, lambda: self.b_str(d - 1)),
            (self.w["substr"], lambda: self.strsub(d - 1)),
            (1, lambda: self.name()),
            (self.w["subscript"] / 2, lambda: self.subscript("str", d - 1)),
            (self.w["app"] / 4, lambda: self.app_fn("str", d - 1)))

    def f_text(self, d):
        v = self.var("text") if self.p(0.3) else None
        return v or self.code(d - 1)

    def f_list(self, d):
        v = self.var("list") if self.p(0.4) else None
        if v:
            return v
        if d <= 0:
            return "(" + " ".join(self.pick(["1", "2", "3", '"s"', "(`t)", "k"]) for _ in range(self.r.randrange(0, 4))) + ")"
        kinds = self.pick([["int"], ["str"], ["int", "str"], ["any"]])
        return self.ch(
            (6, lambda: "(" + self.gap().join(self.item(self.pick(kinds), d - 1) for _ in range(self.r.randrange(0, 5))) + self.pick(["", " "]) + ")"),
            (self.w["builtin"] / 3, lambda: self.b_list(d - 1)),
            (self.w["loop"] / 4, lambda: self.loop(d - 1)))

    def item(self, kind, d):
        if self.p(0.08 * self.w["embed"]):
            return "*" + self.form("list", d)
        return self.form(kind, d)

    def f_fn(self, d):
        v = self.var("fn") if self.p(0.4) else None
        return v or self.lam(max(0, d - 1))[0]

    def lam(self, d, arity=None):
        """(text, params)"""
        n = self.r.randrange(1, 4) if arity is None else arity
        pars = []
        head = ""
        sc = []
        for k in range(n):
            x = self.pick(["p", "q", "x", "y", "i", "val"]) + (str(k) if self.p(0.7) else "")
            if self.w["late"] and self.p(0.04 * self.w["late"]):
                z = "z%d" % k
                head += "\\%s..\\%s." % (z, x)
                sc.append((x, "fn", ([z], 0, False)))
                pars.append((x, None, "late"))
                continue
            dflt = None
            if self.p(0.1 * self.w["default"]):
                dflt = self.form(self.pick(["int", "str"]), min(d, 1))
            head += "\\" + x + (":" + dflt if dflt is not None else "") + "." + self.pick(["", "", "", " ", "\n"])
            sc.append((x, self.pick(["int", "str", "any"]), None))
            pars.append((x, dflt, ""))
        va = self.p(0.04 * self.w["vararg"])
        if va:
            head += "\\..."
            sc.append(("__va_args__", "list", None))
        body = self.scoped(sc, lambda: self.body(d))
        return head + body, (pars, va)

    def body(self, d):
        return self.ch((5, lambda: self.code(d)), (self.w["infix"] / 2, lambda: self.infix(d)), (3, lambda: self.app(d)),
                       (1, lambda: self.form("list", d) if True else ""), (self.w["let"] / 3, lambda: self.let("any", d)))

    def code(self, d):
        inner = self.text(d, inside=True)
        k = self.r.random()
        if k < 0.75:
            return "[" + self.balanced2(inner) + "]"
        if k < 0.87:
            return "($code" + self.balanced2(inner) + ")"
        if k < 0.94:
            return "]" + self.pick(["", " "]) + "\n" + inner + "\n" + self.pick(["", "  "]) + "["
        return "]" + inner + "["

    def balanced2(self, s):
        return s

    def infix(self, d):
        s = self.iexpr(2)
        return self.ch((4, lambda: "{" + s + "}"), (1, lambda: "{ " + s + " }"), (0.5, lambda: "(${} " + s + ")"))

    def iexpr(self, d):
        ints = [v[0] for v in self.visible("int") if "-" not in v[0]]
        strs = [v[0] for v in self.visible("str") if "-" not in v[0]]

        def atom():
            if ints and self.p(0.6):
                return self.pick(ints)
            if self.p(0.01):
                return "undef_name"
            return str(self.r.randrange(0, 20))
        if d <= 0:
            return atom()
        e = self.iexpr
        return self.ch(
            (3, atom),
            (5, lambda: e(d - 1) + self.pick([" + ", "+", " - ", " * ", " // ", " % "]) + e(d - 1)),
            (2, lambda: "(" + e(d - 1) + self.pick(["+", "-", "*"]) + e(d - 1) + ")"),
            (2, lambda: e(d - 1) + self.pick([" < ", "<=", " > ", " >= ", " == ", " != "]) + e(d - 1)),
            (1, lambda: self.pick(["not ", "-", "~", "abs(", "+"]) + e(d - 1)) if False else (1, lambda: self.pick(["not ", "-", "~"]) + "(" + e(d - 1) + ")"),
            (1, lambda: e(d - 1) + self.pick([" and ", " or "]) + e(d - 1)),
            (0.7, lambda: e(d - 1) + " if " + e(d - 1) + " else " + e(d - 1)),
            (0.5, lambda: e(d - 1) + self.pick([" & ", " | ", " ^ ", " << ", " >> "]) + str(self.r.randrange(0, 5))),
            (0.5, lambda: "len(" + (self.pick(strs) if strs else "'abc'") + ")"),
            (0.5, lambda: "abs(" + e(d - 1) + ")"),
            (0.4, lambda: "max(" + e(d - 1) + ", " + e(d - 1) + ")"),
            (0.3, lambda: "int(" + e(d - 1) + ")"),
            (0.4, lambda: self.pick(["2", "3"]) + " ** " + str(self.r.randrange(0, 5))),
            (0.3, lambda: "($" + (self.pick(ints) if ints else "add 1 2") + ")"),
            (0.3, lambda: "str(" + e(d - 1) + ") + 'z'"))

    # -- built-ins
    def b_int(self, d):
        f = self.form
        return self.ch(
            (6, lambda: "($%s %s %s)" % (self.pick(["add", "sub", "mul", "add", "floordiv", "mod", "and", "or", "xor", "lshift", "rshift", "eq", "ne", "lt", "le", "gt", "ge", "cmp"]), f("int", d), f("int", d))),
            (2, lambda: "($%s %s)" % (self.pick(["inc", "dec", "neg", "abs", "not", "truth", "len", "strlen", "islist", "isdigit", "sum", "ord"]), f(self.pick(["int", "str", "list"]), d))),
            (1, lambda: "($len %s)" % f("list", d)),
            (1, lambda: "($len %s)" % f("str", d)),
            (0.6, lambda: "($%s %s %s)" % (self.pick(["index", "rindex", "find", "count"]), f("str", d), f("str", 0))),
            (0.6, lambda: "($%s %s %s)" % (self.pick(["index", "rindex"]), f("list", d), f("int", 0))),
            (0.5, lambda: "($%s %s %s)" % (self.pick(["eq", "ne", "lt", "gt", "cmp"]), f("str", d), f("str", d))),
            (0.5, lambda: "($atoi (`%d))" % self.r.randrange(-9, 99)),
            (0.5, lambda: "($sum (%s))" % " ".join(f("int", 0) for _ in range(self.r.randrange(4)))),
            (0.3, lambda: "($reduce add (%s))" % " ".join(f("int", 0) for _ in range(self.r.randrange(1, 4)))))

    def b_str(self, d):
        f = self.form
        return self.ch(
            (3, lambda: "($%s %s)" % (self.pick(["upper", "lower", "swapcase", "capitalize", "strip", "lstrip", "rstrip", "unq", "q", "qs", "str", "reversed", "car", "cdr"]), f("str", d))),
            (1.5, lambda: "($%s %s %s)" % (self.pick(["concat", "add"]), f("str", d), f("str", d))),
            (1, lambda: "($str %s)" % f("int", d)),
            (1, lambda: "($%s %s)" % (self.pick(["hex", "oct", "str", "q"]), f("int", d))),
            (1, lambda: "($join %s%s)" % (f("list", d), self.pick(["", ' (`, )', ' "-"', " (`)"]))),
            (1, lambda: "($replace %s %s %s)" % (f("str", d), f("str", 0), f("str", 0))),
            (1, lambda: "($%s %s %d)" % (self.pick(["ljust", "rjust", "zfill"]), f("str", d), self.r.randrange(0, 9))),
            (1, lambda: "($getslice %s %s)" % (f("str", d), self.pick(["1", "2", "0 2", "1 -1", "-2 (`)", "1 99", "\"\" 2"]))),
            (0.4, lambda: "($chr %d)" % self.r.randrange(33, 120)),
            (0.3, lambda: "($%s)" % self.pick(["__FILE__", "__OUTPUT_FILE__", "__MODULE_NAME__", "SPACE", "TAB"])))

    def b_list(self, d):
        f = self.form
        return self.ch(
            (3, lambda: "($range %s)" % self.pick(["3", "5", "0", "2 5", "0 6 2", "5 0 -2", "-1"])),
            (1, lambda: "($list %s)" % " ".join(f("int", d) for _ in range(self.r.randrange(0, 3)))),
            (1, lambda: "($reversed %s)" % f("list", d)),
            (1, lambda: "($split %s%s)" % (f("str", d), self.pick(["", " (`,)", " (`X)"]))),
            (1, lambda: "($%s %s)" % (self.pick(["car", "cdr"]), f("list", d))),
            (1, lambda: "($getslice %s %s)" % (f("list", d), self.pick(["1", "2", "0 2", "1 -1", "-2 (`)", "1 99"]))),
            (0.7, lambda: "($concat %s %s)" % (f("list", d), f("list", d))),
            (0.5, lambda: "($unique (%s))" % " ".join(self.pick(["1", "2", "(`a)", "3"]) for _ in range(5))))

    # -- applications
    def subscript(self, kind, d):
        k = self.r.randrange(-3, 4)
        n = self.r.randrange(1, 5)
        if self.p(0.5):
            return "($%d %s)" % (k, "(" + " ".join(self.form(kind, 0) for _ in range(n)) + ")")
        return "($%s %s)" % (self.form("int", 0), " ".join(self.form(kind, 0) for _ in range(n)))

    def strsub(self, d):
        raw = self.pick(["a($0)b", "($0)-($1)", "n=($n) m=($m)", "($0)($0)", "x($n)"])
        s = "(`" + raw + ")" if self.p(0.6) else '"' + raw + '"'
        args = ""
        if "0" in raw:
            args += " " + self.form(self.pick(["int", "str"]), d)
        if "1" in raw:
            args += " " + self.form("str", 0)
        if "($n)" in raw:
            args += " \\n " + self.form(self.pick(["int", "str"]), d)
        if "($m)" in raw:
            args += " \\m " + self.form("int", 0)
        return "($ " + s + args + ")"

    def args(self, pars, va, d):
        out = []
        named = []
        pos = True
        q = list(pars)
        drop = self.r.randrange(len(q) + 1) if self.p(0.06 * self.w["curry"]) else len(q)
        for k, (x, dflt, mode) in enumerate(q):
            if k >= drop:
                break
            if dflt is not None and self.p(0.6):
                pos = False
                continue
            a = self.form(self.pick(["int", "str", "any"]) if mode != "late" else "str", d)
            if mode == "late":
                z = "[" + self.pick(SAFE) + "($z%d)]" % k
                a = z
            if (not pos or self.p(0.08 * self.w["named"])):
                named.append("\\" + x + " " + a)
            else:
                out.append(a)
        if va:
            out += [self.form("int", 0) for _ in range(self.r.randrange(0, 3))]
        if self.p(0.05 * self.w["embed"]) and len(out) >= 1:
            k = self.r.randrange(len(out))
            out[k:] = ["*(" + " ".join(out[k:]) + ")"]
        if named and self.p(0.5):
            mix = out[:]
            for x in named:
                mix.insert(self.r.randrange(len(mix) + 1), x)
            return mix
        return out + named

    def app(self, d):
        """an application, whatever it gives"""
        d = max(d, 0)
        return self.ch(
            (4, lambda: self.app_var(d)),
            (self.w["lam"], lambda: self.app_lam(d)),
            (self.w["loop"], lambda: self.loop(d)),
            (self.w["builtin"] / 2, lambda: self.b_int(d - 1)),
            (self.w["builtin"] / 3, lambda: self.b_str(d - 1)),
            (self.w["cond"] / 2, lambda: "($ " + self.cond(self.pick(["int", "str", "text"]), d - 1) + ")"),
            (self.w["let"], lambda: self.let("any", d - 1)),
            (self.w["infix"], lambda: "($ " + self.infix(d) + ")" if self.p(0.5) else "(${} " + self.iexpr(2) + ")"),
            (self.w["subscript"], lambda: self.subscript(self.pick(["int", "str"]), d)),
            (self.w["substr"], lambda: self.strsub(d)),
            (self.w["evalstr"], lambda: self.evalstr(d)),
            (self.w["emit"], lambda: self.emit(d)),
            (self.w["list"] / 2, lambda: "($ " + self.form("list", d) + ")"),
            (1, lambda: "($ " + self.form("any", d) + ")"),
            (self.w["table"], lambda: self.table(d)))

    def table(self, d):
        n = self.r.randrange(1, 4)
        rows = ["(%s)" % " ".join(self.form(self.pick(["int", "str"]), 0) for _ in range(n)) for _ in range(self.r.randrange(1, 4))]
        names = ["c%d" % k for k in range(n)]
        body = self.scoped([(x, "any", None) for x in names], lambda: self.code(d - 1))
        return "($ (%s) \\row.($let (%s) row %s))" % (self.gap().join(rows), " ".join(names), body)

    def app_var(self, d):
        q = self.visible()
        if not q:
            return "($ " + self.form("int", d) + ")"
        v = self.pick(q)
        if v[1] in ("fn", "macro") and v[2] is not None:
            return self.call(v, d)
        if v[1] == "list" and self.p(0.4):
            return "($ %s %s)" % (v[0], self.lam(d - 1, 1)[0])
        if v[1] == "list" and self.p(0.3):
            return "($%d %s)" % (self.r.randrange(0, 3), v[0])
        return "($" + v[0] + ")"

    def call(self, v, d):
        if v[1] == "macro":
            pars = v[2]
            a = [self.form(self.pick(["int", "str", "str"]), min(d, 1)) for _ in pars]
            if self.p(0.05 * self.w["named"]) and pars:
                a = ["\\%s %s" % (x, y) for x, y in zip(pars, a)]
        else:
            a = self.args(v[2][0], v[2][2] if len(v[2]) > 2 else v[2][1], d - 1) if v[2] and v[2][0] and isinstance(v[2][0][0], tuple) else [self.form("int", 0)]
        s = "($" + self.pick(["", "", " "]) + v[0] + "".join(self.gap() + x for x in a)
        if self.p(0.05):
            s += "\\" + v[0]
        return s + self.pick(["", "", " "]) + ")"

    def app_fn(self, kind, d):
        q = [v for v in self.visible("fn") if v[2] and v[2][0] and isinstance(v[2][0][0], tuple)]
        if q:
            return self.call(self.pick(q), d)
        return self.app_lam(d)

    def app_lam(self, d):
        t, (pars, va) = self.lam(d - 1)
        a = self.args(pars, va, d - 1)
        return "($ " + t + "".join(self.gap() + x for x in a) + ")"

    def loop(self, d):
        n = 1 if not self.p(0.15) else 2
        src = self.form("list", max(d - 1, 0)) if self.p(0.8) else self.pick(["($range 3)", "(a b c)", "(1 2)"])
        fns = []
        for _ in range(n):
            fns.append(self.lam(d - 1, 1)[0] if not (self.p(0.15) and self.visible("fn")) else self.pick(self.visible("fn"))[0])
        return "($ " + src + self.gap() + self.gap().join(fns) + ")"

    def let(self, kind, d):
        if self.p(0.12 * self.w["multi"]):
            xs = [self.pick(["m1", "m2", "v"]) + str(k) for k in range(self.r.randrange(1, 4))]
            val = self.form(self.pick(["list", "list", "int"]), d)
            b = self.scoped(xs, lambda: self.form(kind, d))
            return "($let (%s) %s %s)" % (" ".join(xs), val, b)
        x = self.name()
        k = self.pick(["int", "str", "list"])
        val = self.form(k, d)
        b = self.scoped([(x, k, None)], lambda: self.form(kind, d))
        return "($let " + x + self.gap() + val + self.gap() + b + self.pick(["", "", " \\let"]) + ")"

    def evalstr(self, d):
        inner = self.text(min(d, 1), inside=True)
        return self.ch((2, lambda: "($$ [" + inner + "])"),
                       (1, lambda: "($$ (`" + self.pick(["add 1 2", "upper \"x\"", "($add 3 4)", "x"]) + "))"),
                       (1, lambda: "($$ \"add 2 3\")"), (0.5, lambda: "($$ ($q " + self.form("str", 0) + "))"))

    def emit(self, d):
        q = self.visible("list")
        if not q:
            return "($ 0)"
        v = self.pick(q)[0]
        return self.ch((3, lambda: "($emit " + v + ")"), (1, lambda: "($emit " + v + " cdr)"), (1, lambda: "($emit " + v + " \\x.x)"))

    # -- statements
    def set(self, d):
        kind = self.ch((4, lambda: "int"), (3, lambda: "str"), (3, lambda: "list"), (self.w["lam"], lambda: "fn"), (2, lambda: "text"))
        if self.p(0.08 * self.w["multi"]):
            xs = [self.pick(["g", "h", "w"]) + str(k) for k in range(self.r.randrange(1, 4))]
            s = "($set (%s) %s)" % (" ".join(xs), self.form(self.pick(["list", "list", "int"]), d))
            for x in xs:
                self.define(x, self.pick(["int", "str"]))
            return s
        x = self.name()
        extra = None
        if kind == "fn":
            v, (pars, va) = self.lam(d)
            extra = (pars, va)
        else:
            v = self.form(kind, d)
        s = "($set " + x + self.gap() + v + self.pick(["", "", "", " \\set", "\n"]) + ")"
        self.define(x, kind, extra)
        return s

    def macro(self, d):
        x = self.name()
        n = self.r.randrange(0, 3)
        pars = ["ma", "mb", "m-c"][:n]
        body = ""
        for _ in range(self.r.randrange(1, 4)):
            body += self.ch((3, lambda: self.pick(SAFE)), (4, lambda: "($%s)" % self.pick(pars) if pars else "k"),
                            (1, lambda: self.pick(["($add 1 2)", "(1)", " ", "\n  ", "($set g ($ma))" if "ma" in pars else "t"])),
                            (1, lambda: self.scoped([], lambda: self.app(1))))
        if body.count("(") != body.count(")"):
            body = "zz"
        s = "($macro %s (%s)%s%s)" % (x, " ".join(pars), self.pick([" ", "", "\n"]), body)
        self.define(x, "macro", pars)
        return s

    # -- text
    def text(self, d, inside=False, n=None):
        n = n if n is not None else self.r.randrange(1, 5 if inside else 8)
        depth = len(self.scopes)
        if inside:
            self.scopes.append([])
        out = ""
        for _ in range(n):
            out += self.piece(d, inside)
        if inside:
            self.scopes.pop()
        return out

    def piece(self, d, inside):
        w = self.w
        return self.ch(
            (w["plain"], lambda: self.balanced(self.plain()) if inside else self.plain()),
            (w["nl"] if not inside else w["nl"] / 4, lambda: "\n" + self.pick(["", "", "  ", "    ", "\t", "\n", "\n\n"] if self.p(w["indent"] / 8) else [""])),
            (w["app"] if d >= 0 else 0, lambda: self.app(d)),
            (w["set"] if not inside else w["set"] / 4, lambda: self.set(max(d, 0))),
            (w["macro"] if not inside else w["macro"] / 8, lambda: self.macro(d)),
            (w["comment"], lambda: self.pick(["($! note)", "($!)", "($! a (b) c)"])),
            (w["quote"], lambda: self.pick(["(`q($x))", "(`)", "($quote abc)", "(`(1))", "(`a)"])),
            (w["lit"], lambda: self.pick(LITS + ["'", '"un\nclosed', "'c"] if self.p(0.2) else LITS)),
            (w["remark"], lambda: self.pick(["// ($a)\n", "/* ($x */", "# r\n", "/ ", "//", "/**/"])))

    def program(self, d=3, n=None):
        return self.text(d, n=n or self.r.randrange(3, 10)) + self.pick(["", "\n", "\n\n\n", " "])


TOKENS = ["($", ")", "(", "[", "]", "{", "}", ",,", ";;", "\\", "\\x.", "?", "|", "&", "::", "\n", " ", "  ", "\t", "a", "x", "1", "-2", "\"", "'", "`",
          "(`", "($set a ", "($let b 1 ", "($macro m (p) ", "($!", "($code ", "($quote", "(${} ", "($$ ", "($add 1 2)", "($a)", "]\n", "\n[", "\\[", "\\set", "\\a", "*", "...", "..",
          "/*", "*/", "//", "#", ":", ".", "0x1", "+", "%", "\"s\"", "'c'", "\u00e9", "\u0103", "\r\n", "\x0c", "($emit a)", "($import "]


def soup(rng):
    return "".join(rng.choice(TOKENS) for _ in range(rng.randrange(1, 16)))


def mutate(rng, s):
    """a text with one small accident"""
    if not s:
        return s
    k = rng.randrange(4)
    i = rng.randrange(len(s))
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + rng.choice(TOKENS) + s[i:]
    if k == 2:
        return s[:i]
    j = rng.randrange(len(s))
    return s[:i] + s[j:j + 3] + s[i:]
