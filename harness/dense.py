"""Programs over a handful of names with fixed kinds, so that bindings collide and still mean something.

i j k: numbers   s t: strings   l m: lists   f g: functions of one number / of a number and a string   h: function with special parameters   q: macro
"""
INTS, STRS, LISTS = ["i", "j", "k"], ["s", "t"], ["l", "m"]


class Dense:
    def __init__(self, rng, w=None):
        self.r = rng
        self.w = dict(let=2, cond=2, loop=2, call=3, infix=2, builtin=2, macro=2, emit=2, multi=2, late=1, named=2, evals=1, sub=1, text=4, layout=1, plain=3, set=5, lists=2, region=0.3, err=0.2)
        self.w.update(w or {})

    def ch(self, *o):
        o = [(w, f) for w, f in o if w > 0]
        x = self.r.random() * sum(w for w, _ in o)
        for w, f in o:
            x -= w
            if x <= 0:
                return f()
        return o[-1][1]()

    def pick(self, q):
        return self.r.choice(q)

    def kind(self, kd, d):
        return {"i": self.int, "s": self.str, "l": self.list}[kd](d)

    def names(self, kd):
        return {"i": INTS, "s": STRS, "l": LISTS}[kd]

    # numbers
    def int(self, d):
        w = self.w
        if d <= 0:
            return self.ch((3, lambda: self.pick(INTS)), (2, lambda: str(self.r.randrange(-2, 6))), (w["err"] / 4, lambda: self.pick(["undef", "&i", "()", "l", "s"])))
        e = lambda: self.int(d - 1)
        return self.ch(
            (3, lambda: self.pick(INTS)), (2, lambda: str(self.r.randrange(-2, 6))), (1, lambda: "($%s)" % self.pick(INTS)),
            (w["infix"], lambda: "{ %s }" % self.infix(2)),
            (w["builtin"], lambda: "($%s %s %s)" % (self.pick(["add", "sub", "mul", "eq", "lt", "ge", "and", "or", "mod"]), e(), e())),
            (w["builtin"] / 2, lambda: "($%s %s)" % (self.pick(["inc", "dec", "not", "neg", "truth"]), e())),
            (w["lists"], lambda: "($len %s)" % self.list(d - 1)), (w["lists"], lambda: "($%s %s)" % (self.pick(["0", "1", "-1"]), self.list(d - 1))),
            (w["lists"] / 2, lambda: "($%s (%s %s %s))" % (self.int(0), e(), e(), e())),
            (w["cond"], lambda: self.cond("i", d - 1)), (w["let"], lambda: self.let("i", d - 1)), (w["call"], lambda: self.call("i", d - 1)),
            (w["emit"] / 2, lambda: self.emit(d - 1)))

    def infix(self, d):
        if d <= 0:
            return self.pick(INTS + ["2", "0", "($i)", "($ j)"])
        a, b = self.infix(d - 1), self.infix(d - 1)
        return self.pick(["%s + %s", "%s - %s", "%s * %s", "%s < %s", "%s == %s", "(%s) + %s", "%s and %s", "%s or %s", "%s if %s else 7"]) % (a, b)

    # strings
    def str(self, d):
        w = self.w
        if d <= 0:
            return self.ch((3, lambda: self.pick(STRS)), (2, lambda: self.pick(["(`a)", "(`)", '"b"', "(`c d)", "[e]", "(`($i))", "'f'", '""'])))
        return self.ch(
            (2, lambda: self.pick(STRS)), (1, lambda: self.pick(["(`a)", "(`)", '"b"', "(`c d)"])), (1, lambda: "($%s)" % self.pick(STRS)),
            (w["text"], lambda: self.code(d - 1)),
            (w["builtin"], lambda: "($%s %s)" % (self.pick(["upper", "unq", "q", "strip", "str", "reversed", "lower"]), self.str(d - 1))),
            (w["builtin"] / 2, lambda: "($concat %s %s)" % (self.str(d - 1), self.str(d - 1))),
            (w["builtin"] / 2, lambda: "($join %s (`,))" % self.list(d - 1)),
            (w["sub"], lambda: "($ %s %s %s)" % (self.pick(["(`<($0)|($1)>)", '"($0)($1)($0)"', "s", "(`($1)($i))"]), self.int(d - 1), self.str(d - 1))),
            (w["sub"] / 2, lambda: "($ (`($n)-($0)) \\n %s %s)" % (self.str(d - 1), self.int(d - 1))),
            (w["cond"], lambda: self.cond("s", d - 1)), (w["let"], lambda: self.let("s", d - 1)), (w["call"], lambda: self.call("s", d - 1)),
            (w["evals"] / 2, lambda: "($$ %s)" % self.pick(["(`($i))", "(`add i 1)", "[i]", '"s"', "(`($f 1))", "s", "(`$s)"])))

    # lists
    def list(self, d):
        w = self.w
        if d <= 0:
            return self.ch((4, lambda: self.pick(LISTS)), (1, lambda: self.pick(["()", "(1 2)", "(i j)", "((`a) s)", "(3)", "(l 5)"])))
        return self.ch(
            (3, lambda: self.pick(LISTS)), (3, lambda: "(%s)" % " ".join(self.item(d - 1) for _ in range(self.r.randrange(0, 4)))),
            (w["builtin"] / 2, lambda: "($range %s)" % self.pick(["3", "2", "1 4", "i"])),
            (w["builtin"], lambda: "($%s %s)" % (self.pick(["cdr", "reversed", "list"]), self.list(d - 1))),
            (w["builtin"] / 2, lambda: "($concat %s %s)" % (self.list(d - 1), self.list(d - 1))),
            (w["loop"], lambda: self.loop(d - 1, False)), (w["cond"] / 2, lambda: self.cond("l", d - 1)), (w["let"] / 2, lambda: self.let("l", d - 1)))

    def item(self, d):
        return self.ch((3, lambda: self.int(d)), (2, lambda: self.str(d)), (1, lambda: "*" + self.list(d)), (0.5, lambda: self.list(d)))

    def loop(self, d, text=True):
        v = self.pick(INTS + STRS)
        body = self.code(d) if text or self.r.random() < 0.5 else self.ch((1, lambda: self.int(d)), (1, lambda: self.str(d)), (0.5, lambda: "(%s %s)" % (v, self.int(0))))
        fn = self.pick(["\\%s.%s" % (v, body)] * 4 + ["f", "inc"])
        if self.r.random() < 0.15:
            fn += " \\%s.%s" % (self.pick(INTS), self.code(d - 1))
        return "($ %s %s)" % (self.list(d), fn)

    def cond(self, kd, d):
        c = self.ch((3, lambda: self.int(d)), (1, lambda: self.str(0)), (1, lambda: self.list(0)))
        a, b = self.kind(kd, d), self.kind(kd, d)
        s = "%s ? %s" % (a, c)
        if self.r.random() < 0.85:
            s += " | " + b
            if self.r.random() < 0.2:
                s += " ? %s | %s" % (self.int(0), self.kind(kd, 0))
        return "($ %s)" % s

    def let(self, kd, d):
        b = self.pick("isl")
        x = self.pick(self.names(b))
        if self.r.random() < 0.1 * self.w["multi"]:
            y = self.pick(INTS)
            return "($let (%s %s) %s %s)" % (x, y, self.pick([self.list(d), "(%s %s)" % (self.kind(b, 0), self.int(0)), "(%s)" % self.kind(b, 0), self.int(0)]), self.kind(kd, d))
        # a binding is recursive: its value is not made of its own name
        v = self.kind(b, d)
        while x in v and self.r.random() < 0.95:
            v = self.kind(b, 0)
        return "($let %s %s %s)" % (x, v, self.kind(kd, d))

    def body(self, d):
        return self.ch((3, lambda: self.code(d)), (2, lambda: self.int(d)), (1, lambda: self.str(d)))

    def lam(self, kds, d):
        s = ""
        used = []
        for kd in kds:
            x = self.pick([n for n in self.names(kd) if n not in used] or self.names(kd))
            used.append(x)
            s += "\\" + x
            if self.r.random() < 0.15:
                s += ":" + self.kind(kd, 0)
            s += "."
        return s + self.body(d), used

    def call(self, kd, d):
        """an application"""
        a, b = self.int(d), self.str(d)
        return self.ch(
            (2, lambda: "($f %s)" % a), (2, lambda: "($g %s %s)" % (a, b)), (1, lambda: "($ ($g %s) %s)" % (a, b)), (1, lambda: "($g *(%s %s))" % (a, b)),
            (self.w["named"], lambda: "($g \\t %s %s)" % (b, a)), (self.w["named"] / 2, lambda: "($g %s \\t %s)" % (a, b)),
            (1, lambda: "($ %s %s)" % (self.lam("i", d)[0], a)), (1, lambda: "($ %s %s %s)" % (self.lam("is", d)[0], a, b)),
            (self.w["named"] / 2, lambda: self.anynamed(d)),
            (self.w["late"], lambda: "($h %s %s)" % (self.pick(["[<($ &z)>]", "($inc &z)", "[($i)($ &z)]", "7", "[t]", "($ ($ &z) ? 1 | 2)"]), a)),
            (self.w["macro"], lambda: "($q %s)" % self.pick([a, b, "()", self.list(0)])),
            (self.w["err"] / 2, lambda: self.pick(["($f)", "($g 1)", "($f 1 2)", "($f \\zz 1)", "($g)", "($undefd 1)"])))

    def anynamed(self, d):
        s, u = self.lam("ii", d)
        return "($ %s \\%s %s %s)" % (s, self.pick(u), self.int(d), self.int(d))

    def emit(self, d):
        return "($emit %s%s)" % (self.pick(LISTS + ["i"]), self.pick(["", "", " cdr", " inc", " \\x.x"]))

    def code(self, d):
        t = "".join(self.piece(d, True) for _ in range(self.r.randrange(1, 4)))
        return self.ch((8, lambda: "[" + t + "]"), (1, lambda: "($code" + t + ")"), (0.5, lambda: "]\n" + t + "\n["))

    def piece(self, d, inside=False):
        w = self.w
        return self.ch(
            (w["plain"], lambda: self.pick([".", "<", "> ", "-", ", ", "z"] + (["\n", "\n  ", " ", "\n\n", "\t", "  "] * w["layout"]))),
            (3, lambda: "($%s)" % self.pick(INTS + STRS + STRS)), (2 if d > 0 else 0, lambda: "($ %s)" % self.int(d - 1)), (2 if d > 0 else 0, lambda: "($ %s)" % self.str(d - 1)),
            (1, lambda: "($ %s)" % self.list(d - 1)),
            (w["loop"] if d > 0 else 0, lambda: self.loop(d - 1)), (w["call"] if d > 0 else 0, lambda: self.call("s", d - 1)), (w["emit"], lambda: self.emit(d)),
            (w["evals"] if d > 0 else 0, lambda: "($$ %s)" % self.str(d - 1)), (w["let"] if d > 0 else 0, lambda: self.let(self.pick("isl"), d - 1)),
            (w["cond"] if d > 0 else 0, lambda: self.cond(self.pick("isl"), d - 1)),
            (w["set"] * (0.4 if inside else 1), lambda: self.set(d - 1)),
            (0.3, lambda: "($! c)"), (0.3, lambda: self.pick(["(`q)", '"($i)"', "(`($s))"])), (w["infix"] / 2, lambda: "($ { %s })" % self.infix(1)))

    def set(self, d):
        w = self.w
        return self.ch(
            (3, lambda: "($set %s %s)" % (self.pick(INTS), self.int(d))), (2, lambda: "($set %s %s)" % (self.pick(STRS), self.str(d))), (2, lambda: "($set %s %s)" % (self.pick(LISTS), self.list(d))),
            (2, lambda: "($set f %s)" % self.lam("i", d)[0]), (1, lambda: "($set g %s)" % self.g(d)),
            (w["multi"] / 2, lambda: "($set (%s %s) %s)" % (self.pick(INTS), self.pick(STRS), self.pick(["(%s %s)" % (self.int(d), self.str(d)), self.list(d), self.int(0), "(%s)" % self.int(0)]))),
            (w["macro"] / 2, lambda: "($macro q (p)%s)" % self.pick(["<($p)>", "($set i ($p))", "($len ($p))", "($p)($i)($p)", "($upper (`($p)))", "($f ($p))", "\n  ($p)\n", "($set s (`($p)))x"])),
            (w["late"] / 2, lambda: "($set h \\z..\\u.\\i.%s)" % self.pick(["[($u i)]", "($u \\z i)", "[($ u)($i)]", "[<($u 3)|($u i)>]"])))

    def g(self, d):
        s, u = self.lam("is", d)
        return s

    def program(self, d=2, n=None):
        head = "($set i %d)($set j %s)($set k 0)($set s (`S))($set t %s)($set l (1 2 3))($set m %s)($set f \\i.[f($i)])($set g \\j.\\t.[g($j)($t)])($set h \\z..\\u.\\i.[($u i)])($macro q (p)<($p)>)" \
            % (self.r.randrange(5), self.pick(["2", "i", "-1"]), self.pick(['"T"', "(`)", "s"]), self.pick(["((`a) (`b))", "()", "l", "(4 (5 6))"]))
        return head + "".join(self.piece(d) for _ in range(n or self.r.randrange(2, 9)))
