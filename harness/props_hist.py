"""Scenarios of the properties about runs, files and time: alphabets of commands whose histories TLC enumerates.

H[id]: [(label, scenario, depth quick, depth thorough, replayed quick, replayed thorough)]
"""
B = ["-q", "-b", "0", "-l", "4"]


def cli(*a):
    return ["cli", *B, *a]


def main(entry, *a):
    return ["main", entry, *B, *a]


def scen(files, cmds, mkdirs=(), **k):
    return dict(files=[list(f) + [False, 1][len(f) - 2:] if len(f) < 4 else list(f) for f in files], cmds=[list(c) for c in cmds], mkdirs=list(mkdirs), **k)


H = {}

# ---- C10: where imports are looked for ----
# wN exists in the directories that are the bits of N
DIR10 = ["", "s/", "i1/", "i2/"]
W10 = [(d + "w%d%s" % (n, e), t % (d or "./", n)) for n in range(16) for b, d in enumerate(DIR10) if n >> b & 1 for e, t in ((".yu", "<%s%d>($import v)"), )] \
    + [(d + "v.yu", "{v of %s}" % (d or "./")) for d in DIR10] + [(d + "u/q.yu", "u of %s ($import \"q.yu\")" % (d or "./")) for d in DIR10[1:]] + [("i2/q.yu", "q"), ("s/u/x.yu", "X"), ("i1/x.yu", "X1"), ("s/t/y.yu", "Y"), ("i1/stdlib.yu", "mine"), ("s/i1/w4.yu", "inner"), ("i2/y.py", "Y = 'i2'"), ("s/y.py", "Y = 's'"), ("i1/y.py", "Y = 'i1'")]
S10 = [(d + "m%d.c.yu" % n, "($import w%d)|($import \"w%d.yu\")|($import \"w%d.yu\")($import w%d)\n" % (n, n, n, n)) for d in ("", "s/", "s/t/") for n in range(16)] \
    + [(d + "u.c.yu", "($import \"u/q.yu\")|($import 'u/q.yu')\n") for d in ("", "s/", "s/t/", "i1/")] + [(d + "y.c.yu", "($import \"y.py\")($Y)\n") for d in ("", "s/", "s/t/")] + [("s/x.c.yu", "($import x)"), ("s/t/x.c.yu", "($import y)($import \"../u/x.yu\")"), ("x.c.yu", "($import \"s/w3.yu\")($import \"./s/w3.yu\")($import s)"),
       ("l.c.yu", "($import stdlib)($abs -4)"), ("s/k.c.yu", "($import \"i1/w4.yu\")"), ("k.c.yu", "($import \"i1/w4.yu\")")]
D10 = [[], ["-d", "i1"], ["-d", "i2"], ["-d", "i1", "-d", "i2"], ["-d", "i2", "-d", "i1"], ["-d", "none", "-d", "s/", "-d", "i2/"], ["-d", "s/t/../../i1"]]
H["C10"] = [
    ("directories", scen(W10 + S10, [cli(*o, x[0]) for x in S10 for o in D10]), 1, 1, 420, 600),
    ("files of one run", scen(W10 + S10, [cli(*o, *q) for o in D10 for n in (3, 6, 9, 12, 15, 1, 2) for q in ((["s/m%d.c.yu" % n, "m%d.c.yu" % n]), (["m%d.c.yu" % n, "s/t/m%d.c.yu" % n, "s/m%d.c.yu" % n]), (["s/y.c.yu", "s/t/y.c.yu", "y.c.yu"]), (["s/u.c.yu", "u.c.yu", "i1/u.c.yu"]))]), 1, 1, 120, 200),
    ("runs", scen(W10 + S10, [cli(*o, x) for x in ("m14.c.yu", "s/m14.c.yu", "y.c.yu") for o in D10[:4]] + [["proc_stream", "s/m6.c.yu"], ["proc_stream", "m14.c.yu"], ["proc_file", "s/t/m12.c.yu"], ["rm", "i1/w14.yu"], ["rm", "s/w14.yu"], ["write", "w14.yu", "new"], ["write", ".yuconfig", "directory = ['i2', 'i1']\n"], ["write", "s/m6.yuconfig", "directory = ['i1']\n"]]), 2, 3, 200, 1500),
]

# ---- C11: whole text or nothing ----
GOOD = "x ($add 1 2)\n($set a 5)($a)\n"
AST = "b ($ \\x.[($x)])\n"
FILES11 = [("g.c.yu", GOOD), ("m.c.yu", "a($set x\n"), ("e.c.yu", "first\n($set a 1)($a)\n($int (`q))\nlast\n"), ("t.c.yu", AST),
           ("u.c.yu", "<BIN>61ff0a"), ("i.c.yu", "($import nofile)\n"), ("w.c.yu", "($set __OUTPUT_FILE__ (`nodir/w.c))text\n"), ("d.c.yu", "($set __OUTPUT_FILE__ (`dd))text\n"),
           ("p.c.yu", "($__PASSAGE__ (1 0))($div 1 ($__PASSAGE__ (1 0)))\n"), ("n.c.yu", ""), ("g.c", "old\n", True, 2), ("m.c", "old m\n", True, 2), ("t.c", "old t\n"), ("m.c.bak", "older m\n", True, 2),
           ("e.c", "old e\n")]
EDITS11 = [["write", "m.c.yu", "a($set x 7)($x)\n"], ["write", "g.c.yu", "a($g\n"], ["write", "g.c.yu", AST], ["write", "e.c.yu", "<BIN>ff"], ["rm", "g.c.yu"]]
NAMES11 = ["g", "m", "e", "t", "u", "i", "w", "d", "p", "n", "zz"]
H["C11"] = [
    ("each source, alone and in pairs", scen(FILES11, [cli(x + ".c.yu") for x in NAMES11] + [cli(x + ".c.yu", y + ".c.yu") for x in NAMES11 for y in NAMES11 if x != y], ["dd"]), 1, 1, 200, 200),
    ("edits and runs", scen(FILES11, EDITS11 + [cli("g.c.yu", "m.c.yu", "e.c.yu"), cli("m.c.yu"), cli("-o", "dd", "g.c.yu", "t.c.yu"), cli("-o", "nodir", "g.c.yu", "m.c.yu"), cli("--no-read-only", "g.c.yu"),
                                                 ["proc_stream", "g.c.yu"], ["proc_file", "m.c.yu"], ["proc_stream", "t.c.yu"]], ["dd"]), 2, 3, 160, 1600),
    ("status of the process", scen(FILES11, [main(e, *q) for e in ("pp", "yup", "pkg", "script") for q in (["g.c.yu"], ["g.c.yu", "m.c.yu"], ["u.c.yu", "t.c.yu", "zz.c.yu"], ["w.c.yu", "d.c.yu", "i.c.yu", "e.c.yu"])], ["dd"], iso=True), 1, 1, 16, 16),
    ("text typed", scen(FILES11, [cli("--type-file", x + ".c.yu") for x in NAMES11] + [cli("-i", GOOD, x + ".c.yu") for x in NAMES11], ["dd"]), 1, 1, 30, 30),
]

# ---- C14: names ----
PROG14 = "($__FILE__)|($__OUTPUT_FILE__)|($__MODULE_NAME__)\n"
STEMS = ["a", "a-b", "Ab.C", ".h", "x.yu", "a b", "x-1.2"]
EXTS = ["", ".yu", ".YU", ".c", ".c.yu", ".yu-h", ".Yu-C", ".yup", ".yu-", ".yu.c", ".C.yu", ".c.yu-h", ".yugen", ".ast", ".yu-py"]


def names14(d):
    # no two sources of one scenario have the same name, nor is one the output of another
    r = {"./": "", "s/t/../": "s/"}.get(d, d)
    return [(r + s + e, PROG14) for s in STEMS for e in EXTS if not (s == ".h" and e == ".yugen")]


SETS14 = ["($set __OUTPUT_FILE__ (`n.txt))", "($set __OUTPUT_FILE__ 'n.txt')", '($set __OUTPUT_FILE__ "n.txt")', "($set __OUTPUT_FILE__ n.txt)", "($set __OUTPUT_FILE__ [n.txt])", "($set __OUTPUT_FILE__ ($strcat [n] [.h]))",
          "($set __OUTPUT_FILE__ 5)", "($set __OUTPUT_FILE__ ())", "($set __OUTPUT_FILE__ (`))", "($set x ($lower ($__MODULE_NAME__)))($set __OUTPUT_FILE__ [($x).h])",
          "($set __OUTPUT_FILE__ (`n.txt))($set __OUTPUT_FILE__ (`m.txt))", "[($set __OUTPUT_FILE__ (`n.txt))]", "($ [($set __OUTPUT_FILE__ (`n.txt))])", "($let __OUTPUT_FILE__ (`n.txt) ($__OUTPUT_FILE__))",
          "($set f \\x.[($set __OUTPUT_FILE__ ($x))])($f (`n.txt))", "($set __OUTPUT_FILE__ (`o/n.txt))", "($set __OUTPUT_FILE__ (`./n.txt))", "($set (a b) ((`n.txt) 2))($set __OUTPUT_FILE__ ($a))", "($macro m (f) ($set __OUTPUT_FILE__ (`($f))))($m n.txt)",
          "($set __FILE__ 7)($__FILE__)", "($set __MODULE_NAME__ 8)($__MODULE_NAME__)", "($ 0 ? ($set __OUTPUT_FILE__ (`n.txt)) | no)", "($import (`i.yu))", "($set __OUTPUT_FILE__ (`nodir/n.txt))",
          "($set __OUTPUT_FILE__ (`o))", "($set __OUTPUT_FILE__ ($add 1 2))", "($set __OUTPUT_FILE__ {'q.h'})"]
H["C14"] = [("paths in " + (d or "."), scen(names14(d), [cli(*o, d + n[n.rfind("/") + 1:]) for n, _ in names14(d) for o in ([], ["-o", "o"], ["-o", "./o/"])], ["o", "D-x.y", "s/t"]), 1, 1, 110, 400)
            for d in ("", "s/", "D-x.y/", "./", "s/t/../")]
H["C14"] += [
    ("names set by the source", scen([("a-b.c.yu", PROG14), ("i.yu", "($set __OUTPUT_FILE__ (`imp.txt))")],
                                     [["write", "a-b.c.yu", x + PROG14] for x in SETS14] + [cli("a-b.c.yu"), cli("-o", "o", "a-b.c.yu"), ["proc_stream", "a-b.c.yu"], ["proc_file", "a-b.c.yu"]], ["o"]), 2, 3, 260, 2000),
    ("several files", scen([("x.c.yu", PROG14), ("s/X.c.yu", PROG14), ("s/y-z.yu-h", "($set __OUTPUT_FILE__ (`r.h))" + PROG14), ("w", PROG14)],
                           [cli(*o, *q) for o in ([], ["-o", "o"]) for q in (["x.c.yu", "s/X.c.yu"], ["s/y-z.yu-h", "x.c.yu"], ["w", "s/y-z.yu-h", "s/X.c.yu"], ["x.c.yu"], ["s/X.c.yu", "w"])] + [["proc_file", "s/y-z.yu-h"], ["proc_stream", "w"]], ["o"]), 2, 3, 90, 900),
]

# ---- C15: regeneration ----
FILES15 = [("a.c.yu", "one\n"), ("b.c.yu", "b ($add 1 1)\n($__OUTPUT_FILE__)\n"), ("bad.c.yu", "($\n"), ("other.txt", "keep\n", True, 1), ("a.c.tmp", "left over\n", True, 1), ("a.h", "keep\n")]
RUNS15 = [cli("a.c.yu"), cli("--no-read-only", "a.c.yu"), cli("a.c.yu", "b.c.yu"), cli("--pp-browse", "b.c.yu"), cli("-o", "o", "a.c.yu"), cli("bad.c.yu", "a.c.yu"), cli("a.c.yu", "a.c.yu"), ["proc_file", "a.c.yu"], ["proc_stream", "b.c.yu"]]
EDITS15 = [["write", "a.c.yu", "two ($upper a)\n"], ["write", "a.c.yu", "($\n"], ["write", "a.c.yu", "($set __OUTPUT_FILE__ (`b.c))stolen\n"], ["write", "a.c", "by hand\n"], ["rm", "a.c"], ["rm", "a.c.bak"], ["write", "a.c.bak", "bak by hand\n"],
           ["touch", "a.c.yu", 1100]]
H["C15"] = [
    ("regeneration", scen(FILES15, RUNS15 + EDITS15, ["o"]), 3, 4, 420, 6000),
]

# ---- C16: independence ----
FILES16 = [("s.c.yu", "($set x 1)($macro m (a) <($a)>)($set f \\y:7.[($y)($x)])($x)($m q)($f)\n"), ("u.c.yu", "($x)|($m q)|($f)|($l)|($V)|($W)|($P)\n"), ("q.c.yu", "($set l (1 2 3))($emit l \\emit)($emit l)($unique (1 1 2))($l)\n"),
           ("f.c.yu", "($set x 9)($set l 4)[($let x 2 [($x)($int (`q))])]\n"), ("b.c.yu", "($set x 9)[($\n"), ("i.c.yu", "($import a)($x)($hidden)\n"), ("j.c.yu", "($import (`inc/a.yu))($x)\n"),
           ("a.yu", "($set x A)from a\n"), ("inc/a.yu", "($set x INC)from inc\n"), ("k.c.yu", "($import stdlib)($repeat 2 k)\n"), ("p.c.yu", "($__PASSAGE__ (1 2 3))\n"), ("n.c.yu", "  ($set t [\n a\n  b])\n   ($t)\n\n\n\n// ($add 1 2)\n"),
           ("r.py.yu", "# coding: yupp\nx = ($add 1 2) # ($add 1 1)\n"), ("o.c.yu", "($set __OUTPUT_FILE__ (`set.txt))($__OUTPUT_FILE__)\n"), ("t.c.yu", AST), ("g.yu", "($__FILE__)($__MODULE_NAME__)\n"), ("sub/h.c.yu", "($import b2)($x)\n"), ("sub/b2.yu", "($set x SUB)"), ("w.c.yu", "($import b2)($x)\n"), ("tub/w.c.yu", "($import \"b2.yu\")($import b3)($x)\n"), ("tub/b3.yu", "($set x TUB)"), ("sub/v.c.yu", "($import b3)($x)\n"),
           ("z.c.yu", "($lt a b)($index (b a b) b)($keys)($join ($range 3 0) ,)($__FILE__)\n")]
ONE16 = [cli(x) for x in ("s.c.yu", "u.c.yu", "q.c.yu", "f.c.yu", "b.c.yu", "i.c.yu", "j.c.yu", "p.c.yu", "n.c.yu", "r.py.yu", "o.c.yu", "t.c.yu")]
MORE16 = [cli("-D", "V:5", "u.c.yu"), cli("-D", "W", "-D", "P:(1 2)", "s.c.yu", "u.c.yu"), cli("-d", "inc", "i.c.yu"), cli("--pp-skip-comments", "1", "n.c.yu"), cli("--pp-skip-comments", "3", "r.py.yu", "n.c.yu"), cli("--pp-no-trim-app-indent", "n.c.yu"),
          cli("--pp-no-reduce-emptiness", "n.c.yu"), cli("--pp-browse", "s.c.yu"), cli("-o", "o", "s.c.yu"), cli("--no-read-only", "s.c.yu"), cli("-i", "($set x 3)($x)", "u.c.yu"), ["proc_stream", "s.c.yu"], ["proc_stream", "u.c.yu"],
          ["proc_file", "o.c.yu"], ["proc_file", "g.yu"], ["repl", "($set x 5)($x)\ntest\n($x)\n", *B, "-D", "V:8"], cli("sub/h.c.yu"), cli("z.c.yu")]
ORD16 = ["s.c.yu", "u.c.yu", "q.c.yu", "f.c.yu", "b.c.yu", "i.c.yu", "p.c.yu", "n.c.yu", "r.py.yu", "o.c.yu", "j.c.yu", "sub/h.c.yu"]
H["C16"] = [
    ("runs one after another", scen(FILES16, ONE16 + MORE16, ["o"], iso=True), 2, 3, 330, 4000),
    ("files of one run", scen(FILES16, [cli(x, y, z) for x in ORD16 for y in ORD16 for z in ("u.c.yu", "q.c.yu", "j.c.yu", "n.c.yu") if len({x, y, z}) == 3], ["o"], iso=True), 1, 1, 200, 1000),
    ("directories of the files of one run", scen(FILES16, [cli(*o, *q) for o in ([], ["-d", "inc"], ["-d", "tub"]) for q in (["sub/h.c.yu", "w.c.yu"], ["w.c.yu", "sub/h.c.yu", "w.c.yu"], ["sub/h.c.yu", "tub/w.c.yu", "sub/v.c.yu"], ["tub/w.c.yu", "sub/v.c.yu", "i.c.yu"], ["sub/v.c.yu", "j.c.yu", "w.c.yu"], ["b.c.yu", "sub/h.c.yu", "f.c.yu", "w.c.yu", "i.c.yu"])]
                                                 + [["proc_stream", "sub/h.c.yu"], ["proc_stream", "w.c.yu"], cli("-i", "($import b2)", "sub/h.c.yu", "w.c.yu")], ["o"], iso=True), 1, 1, 30, 30),
    ("maps of the files of one run", scen(FILES16, [cli("--pp-browse", *q) for q in (["s.c.yu", "q.c.yu"], ["i.c.yu", "s.c.yu", "r.py.yu"], ["b.c.yu", "p.c.yu", "n.c.yu"], ["sub/h.c.yu", "z.c.yu", "o.c.yu", "s.c.yu"], ["f.c.yu", "u.c.yu", "t.c.yu", "s.c.yu"], ["n.c.yu"])] + [cli("s.c.yu")], ["o"], iso=True), 2, 2, 30, 49),
    ("longer runs", scen(FILES16, [cli(*ORD16), cli(*reversed(ORD16)), cli(*ORD16[3:], *ORD16[:3]), cli("-D", "V:1", *ORD16[::2], *ORD16[1::2]), cli("u.c.yu", "i.c.yu")], ["o"], iso=True), 2, 3, 30, 150),
    ("ways of starting", scen(FILES16, [main(e, *q) for e in ("pp", "yup", "pkg", "script") for q in (["s.c.yu", "q.c.yu"], ["z.c.yu"], ["b.c.yu", "f.c.yu", "t.c.yu"], ["--pp-skip-comments", "9", "s.c.yu"], ["p.c.yu", "b.c.yu"], ["--pp-browse", "i.c.yu", "zz"])], ["o"], iso=True), 1, 1, 24, 24),
    ("library", scen(FILES16, [cli("k.c.yu", "u.c.yu", "s.c.yu"), main("pkg", "k.c.yu", "b.c.yu")], ["o"], iso=True), 1, 2, 2, 4),
]

# scripts in Python: what one file (or run) imports is not there for the next
SCR16 = [("a.c.yu", "($import \"x.py\")($f 1)|($K)|($add 5 3)|($L)\n"), ("b.c.yu", "($f 1)|($K)|($add 5 3)|($g 2)|($L)\n"), ("c.c.yu", "($import \"p/x.py\")($f 1)|($K)|($g 2)\n"), ("d.c.yu", "($import \"y.py\")($import \"x.py\")($f 1)($g 2)|($K)\n"),
         ("e.c.yu", "($import \"x.py\")($import \"y.py\")($f 1)($g 2)|($K)($\n"), ("s/h.c.yu", "($import \"x.py\")($f 1)|($K)|($add 5 3)\n"), ("g.c.yu", "($import \"bad.py\")($K)\n"), ("i.c.yu", "($import \"i.yu\")($f 1)($K)\n"), ("i.yu", "($import \"x.py\")<($f 3)>"), ("j.c.yu", "($import \"n.py\")($K)($n 1)\n"),
         ("k.c.yu", "($__PASSAGE__ (1 2))($import \"x.py\")($f 1)($K)\n"), ("l.c.yu", "($set f 7)($set K 8)($f)($K)($import \"x.py\")($f)($K)\n"), ("v.c.yu", "($import \"v.py\")($v)($v)($K)\n"),
         ("x.py", "K = 'top'\ndef f(a): return 'x%s' % a\ndef add(a, b): return a - b\n"), ("p/x.py", "K = 'p'\ndef f(a): return 'p%s' % a\ndef g(a): return a\n"), ("s/x.py", "K = 's'\ndef f(a): return 's%s' % a\n"), ("y.py", "K = 'y'\ndef g(a): return 'y%s' % a\n"),
         ("bad.py", "K = 5\n1 / 0\n"), ("q/x.py", "K = 'q'\nL = 4\ndef f(a): return 'q'\n"), ("v.py", "K = 'v'\ndef v(): return 3\n")]
SRC16 = ["a", "b", "c", "d", "e", "g", "i", "j", "k", "l", "v"]
SNEW16 = [["write", "x.py", "K = 'changed'\nL = 6\ndef f(a): return 'changed%s' % a\n"], ["write", "x.py", "K = 'wrong'\ndef f(a: return\n"], ["rm", "x.py"], ["write", "s/x.py", "def f(a): return 's2'\n"], ["write", "n.py", "K = 'n'\ndef n(a): return K\n"]]
H["C16"] += [
    ("files with scripts", scen(SCR16, [cli(x + ".c.yu", y + ".c.yu") for x in SRC16 for y in SRC16 if x != y] + [cli("s/h.c.yu", x + ".c.yu", "s/h.c.yu") for x in ("a", "b", "c", "i", "l")] + [cli("-d", "q", "s/h.c.yu", "b.c.yu"), cli("-d", "q", "a.c.yu"), cli("-D", "f:9", "-D", "K:8", "b.c.yu", "a.c.yu", "b.c.yu")], iso=True), 1, 1, 130, 200),
    ("runs with scripts", scen(SCR16, [cli(x + ".c.yu") for x in SRC16[:-1]] + [cli("s/h.c.yu"), cli("b.c.yu", "a.c.yu", "b.c.yu"), cli("-D", "K:8", "b.c.yu"), ["proc_stream", "a.c.yu"], ["proc_file", "b.c.yu"], ["proc_stream", "s/h.c.yu"], cli("-i", "($import \"x.py\")($f 1)", "b.c.yu"),
                                       ["repl", "($import \"x.py\")($f 2)\ntest\n($f 3)($K)\ntest\n", *B]] + SNEW16, iso=True), 2, 3, 260, 2500),
]

# ---- C17: freshness ----
FILES17 = [("a.c.yu", "one ($V)\n"), ("d.txt", "dep\n"), ("e.h", "dep2\n")]
CONF17 = [["write", ".yuconfig", "dependency = ['d.txt']\n"], ["write", "a.c.yuconfig", "dependency = ['d.txt', 'e.h']\n"], ["write", "a.c.yuconfig", "force = True\n"], ["write", "a.c.yuconfig", "pp_define = ['V:2']\n"], ["write", "a.c.yuconfig", "dependency = ['none.txt']\n"]]
H["C17"] = [
    ("times of the source", scen(FILES17, [["proc_stream", "a.c.yu"], ["proc_file", "a.c.yu"], ["write", "a.c.yu", "two\n"], ["touch", "a.c.yu", 1000], ["touch", "a.c.yu", 1001], ["touch", "a.c", 1001], ["touch", "a.c", 1], ["write", "a.c", "by hand"], ["rm", "a.c"]]), 4, 5, 420, 6000),
    ("dependencies", scen(FILES17, [["proc_stream", "a.c.yu"], ["proc_file", "a.c.yu"], ["touch", "d.txt", 1001], ["touch", "d.txt", 1000], ["touch", "e.h", 1002], ["rm", "d.txt"], cli("a.c.yu")] + CONF17), 3, 4, 420, 6000),
    ("declared dependencies", scen([("a.c.yu", "one ($V)\n", False, 900), ("d.txt", "dep\n", False, 900), ("e.h", "dep2\n", False, 900), ("a.c", "there\n", False, 950), ("a.c.yuconfig", "dependency = ['d.txt', 'e.h']\n")],
                                   [["proc_stream", "a.c.yu"], ["proc_file", "a.c.yu"]] + [["touch", f, t] for f in ("a.c.yu", "d.txt", "e.h", "a.c") for t in (899, 950, 951)] + [["rm", "d.txt"], ["write", ".yuconfig", "dependency = ['d.txt']\nforce = False\n"]]), 3, 4, 300, 3000),
    ("names and failures", scen([("a.c.yu", "x\n"), ("s/b.yu", "y ($__FILE__)\n"), ("o.c.yu", "($set __OUTPUT_FILE__ (`q.txt))z\n"), ("r.py.yu", "# coding: yupp\nx = 1\n"), ("p.py.yu", "#!/usr/bin/env python\n# -*- coding: yupp.utf-8 -*-\nx = ($add 1 1)\n"), ("u.c.yu", "<BIN>ff")],
                                [["proc_stream", "s/b.yu"], ["proc_file", "s/b.yu"], ["proc_stream", "o.c.yu"], ["proc_stream", "r.py.yu"], ["proc_file", "p.py.yu"], ["proc_stream", "p.py.yu"], ["write", "r.py.yu", "# coding: yupp\n($\n"], ["write", "r.py.yu", "x = 2\n"],
                                 ["write", "s/b.yu", AST], ["proc_file", "u.c.yu"], ["proc_file", "none.c.yu"], ["write", "r.py", "# by hand\ny = 1\n"], ["write", "q.txt", "by hand"], ["write", "o.c", "in the way"]]), 3, 4, 330, 4000),
]

# ---- C18: options ----
PROG18 = "   ($set t [\n a\n  b])\n  ($t)\n\n\n\n// ($add 1 2)\n# ($add 3 4)\n/* ($add 5 6) */\n($V)($W)($import i)\n"
FILES18 = [("a.c.yu", PROG18), ("b.py.yu", PROG18), ("inc/i.yu", "INC"), ("i2/i.yu", "I2"), ("i.yu", "HERE")]
CMD18 = [["--pp-skip-comments", "0"], ["--pp-skip-comments", "1"], ["--pp-skip-comments=2"], ["--pp-skip-comments", "3"], ["--pp-no-trim-app-indent"], ["--pp-trim-app-indent"], ["--pp-no-reduce-emptiness"], ["--pp-reduce-emptiness"], ["--pp-browse"], ["--pp-no-browse"],
         ["-D", "V:5"], ["-D", "V"], ["--pp-define=W:(7)"], ["-D", " W : 8 "], ["-D", "1bad:2"], ["-d", "inc"], ["-d", "i2"], ["-o", "o"], ["--output=o"], ["--no-read-only"], ["-Wno-unbound"], ["--type-file"]]
BAD18 = [["--pp-skip-comments", "4"], ["--no-such-option"], ["-D"], ["--pp-skip-comments", "x"], ["-l", "0"], ["-t", "4"], ["-b", "3"], ["-o"]]
RESP18 = [["write", "r.rsp", "-q -b 0 -l 4 --pp-skip-comments 1 a.c.yu\n"], ["write", "r.rsp", "-q -b 0 -l 4\n--no-read-only\n-D V:3   -o o\na.c.yu\tb.py.yu\n"], ["write", "r.rsp", "-q -b 0 -l 4 --no-such-option a.c.yu"], ["write", "r.rsp", "-q -b 0 -l 4 --pp-browse @x a.c.yu"]]
KEYS18 = ["pp_skip_comments = 1", "pp_skip_comments = PP_SKIP_PYTHON_COMMENTS", "pp_skip_comments = 3", "pp_trim_app_indent = False", "pp_reduce_emptiness = False", "pp_browse = True", "read_only = False", "pp_define = ['V:5', 'W']", "pp_define = ['V']", "directory = ['inc']", "directory = ['i2', 'inc']",
          "pp_trim_app_indent = 0", "pp_reduce_emptiness = 1", "unknown_name = 5", "quiet = True", "output_dir = 'o'", "dependency = []", "raise ValueError", "undefined_name", "log_level = 2", "warn_unbound_application = False"]


def conf18(n, k, m=None):
    return ["write", n, KEYS18[k] + "\n" + (KEYS18[m] + "\n" if m is not None else "")]


H["C18"] = [
    ("one or two options", scen(FILES18, [cli(*x, *y, "a.c.yu") for x in CMD18 for y in CMD18 + [[]]] + [cli(*x, "b.py.yu") for x in CMD18], ["o"]), 1, 1, 220, 600),
    ("one run after another", scen(FILES18, [cli(*x, "a.c.yu") for x in CMD18] + [cli("a.c.yu"), cli("b.py.yu"), ["proc_stream", "a.c.yu"], ["repl", "($V)\n\n\n\n// ($add 1 2)\ntest", *B]], ["o"], iso=True), 2, 2, 240, 700),
    ("refused", scen(FILES18, [cli(*x, *y, "a.c.yu") for x in BAD18 for y in CMD18[::5]] + [["cli", "@none"], ["main", "pp", *B, "--no-such-option", "a.c.yu"], cli("a.c.yu")], ["o"]), 1, 2, 40, 200),
    ("response file", scen(FILES18, RESP18 + [["cli", "@r.rsp"], ["cli", *B, "@r.rsp"], cli("a.c.yu")], ["o"]), 2, 3, 42, 300),
    ("configuration scripts", scen(FILES18, [conf18(".yuconfig", k) for k in range(len(KEYS18))] + [conf18("a.c.yuconfig", k) for k in range(len(KEYS18))] + [["proc_stream", "a.c.yu"]], ["o"], iso=True), 3, 3, 330, 6000),
    ("scripts of two lines", scen(FILES18, [conf18("a.c.yuconfig", k, m) for k in range(len(KEYS18)) for m in (1, 3, 5, 6, 8, 10, 17, 18)] + [["proc_stream", "a.c.yu"], ["proc_file", "b.py.yu"]], ["o"], iso=True), 2, 2, 200, 600),
    ("scripts of several files", scen(FILES18, [conf18(".yuconfig", 6), conf18("a.c.yuconfig", 7), conf18("b.py.yuconfig", 2), conf18("b.py.yuconfig", 9), conf18(".yuconfig", 17), cli("--pp-skip-comments", "1", "-D", "V:9", "a.c.yu"), cli("a.c.yu", "b.py.yu"), ["proc_stream", "a.c.yu"], ["proc_stream", "b.py.yu"],
                                                ["rm", ".yuconfig"], ["rm", "a.c"], ["rm", "b.py"]], ["o"], iso=True), 4, 5, 330, 5000),
]

# ---- C19: the encoding of Python sources ----
HEAD19 = ["# coding: yupp\n", "# coding=yupp\n", "# -*- coding: yupp -*-\n", "#!/usr/bin/env python\n# coding: yupp\n", "#!/usr/bin/env python\n# vim: set fileencoding=yupp.utf-8 :\n", "\n# coding: yupp\n", "# coding: yupp.latin-1\n", "# About it\n# -*- coding=yupp.ascii -*-\n",
          "# coding: YUPP\n", "  # coding: yupp.utf8\n", "# coding: yupp # ($add 1 2)\n", "#!/bin/x coding\n#coding:yupp.cp1252\n", "\n\t# x coding=\tyupp.iso-8859-1\n"]
RUN19 = ["($set x 5)\nprint(($x))\ndef f():\n    return 1 / (($ x) - 5)\n\n\n\nf()\n", "import sys\nprint('a',\n ($add 1 2))\n", "($set m [\nprint(1)\nraise ValueError('v')\n])\n\n\n($m)\n", "print('x'); raise SystemExit(3)\n", "\n\n\n", "($set a \\n.[\ndef g($n)():\n    h($n)()\n])\n($a 1)\n($a 2)\ndef h1(): g2()\ndef h2(): [][0]\ng1()\n", "",
         "($import q)\nprint(w)\n\nassert w == 1, 'q'\n"]
BAD19 = ["($x\n", "print(($int (`q)))\n", "print(\n", "a b ($add 1 2)\n", "($ \\x.[($x)])\n", "($import none)\n", "  x = 1\n", "x = 'a\n", "($set __OUTPUT_FILE__ (`nodir/x.py))x = 1\n", "return\n", "raise\n"]
Q19 = [("q.yu", "($set y 7)w = ($y)\n")]


def hex19(t, enc):
    return "<BIN>" + t.encode(enc).hex()


def name19(h):
    import re
    return re.search(r"coding[:=]\s*([-\w.]+)", h)[1]


NAMES19 = ["yupp", "YUPP", "Yupp.utf-8", "yupp.latin-1", "yupp.UTF-16", "yupp.cp1252", "yupp.ascii", "yupp.", "yuppx", "yupp-8", "yupp_8", "yup", "utf-8", "latin-1", "yupp.nosuch", "yupp.yupp", "yupp..utf8", "xyupp", "yupp.utf8.x", "yupp.koi8-r", "nosuch", "yupp8.utf8", "yuppx.utf8", "yupp.x", "y", "yupp.utf_8",
           "yupp.punycode", "yupp.idna", "yupp.utf-7", "utf-8.yupp", "yupp.mbcs1"]
H["C19"] = [
    ("names", scen([], [["lookup", x] for x in NAMES19], iso=False), 1, 2, 40, 300),
    ("headers, read", scen([("h%d.py" % k, h + RUN19[0]) for k, h in enumerate(HEAD19)], [["codec", "h%d.py" % k, name19(h), how] for k, h in enumerate(HEAD19) for how in ("whole", "rest", "stream", "io")]), 1, 1, 60, 60),
    ("headers, read, then reused", scen([("h%d.py.yu" % k, h + RUN19[5]) for k, h in enumerate(HEAD19)], [["codec", "h%d.py.yu" % k, name19(h), how] for k, h in enumerate(HEAD19) for how in ("whole", "rest")]), 2, 2, 60, 400),
    ("headers, run", scen([("h%d.py" % k, h + RUN19[0]) for k, h in enumerate(HEAD19)], [["python", "h%d.py" % k] for k, h in enumerate(HEAD19)]), 1, 2, 14, 60),
    ("sources, run", scen(Q19 + [("s%d.py" % k, HEAD19[k % 4] + x) for k, x in enumerate(RUN19)], [["python", "s%d.py" % k] for k in range(len(RUN19))]), 1, 2, 8, 40),
    ("sources, read", scen(Q19 + [("s%d.py" % k, HEAD19[k % 8] + x) for k, x in enumerate(RUN19 + BAD19)], [["codec", "s%d.py" % k, name19(HEAD19[k % 8]), how] for k in range(len(RUN19 + BAD19)) for how in ("whole", "rest", "stream")]), 1, 1, 60, 60),
    ("failures, run", scen([("s%d.py" % k, HEAD19[k % 4] + x) for k, x in enumerate(BAD19)], [["python", "s%d.py" % k] for k in range(len(BAD19))]), 1, 1, 12, 12),
    ("texts in encodings", scen([("u%d.py" % k, h + "x = '\u00e9'\n($set e (`\u00fc))# ($e)\nprint('($e)')\n" if "." not in name19(h) or "utf" in name19(h) else hex19(h + "x = '\u00e9'\n($set e (`\u00fc))# ($e)\n", "latin-1")) for k, h in enumerate(HEAD19) if "ascii" not in h],
                                [["codec", "u%d.py" % k, name19(h), how] for k, h in enumerate(HEAD19) if "ascii" not in h for how in ("whole", "rest", "stream", "io")]), 1, 1, 60, 60),
    ("ends of lines", scen([("c%d.py" % k, (h + "($set x 1)\ny = ($x)\n\n\nz = 2").replace("\n", "\r\n")) for k, h in enumerate(HEAD19)], [["codec", "c%d.py" % k, name19(h), how] for k, h in enumerate(HEAD19) for how in ("whole", "rest")] + [["python", "c0.py"], ["python", "c3.py"]]), 1, 1, 32, 32),
    ("histories", scen([("a.py", HEAD19[0] + RUN19[0]), ("d.txt", "d")], [["python", "a.py"], ["codec", "a.py", "yupp", "whole"], ["codec", "a.py", "yupp", "rest"], ["codec", "a.py", "yupp", "stream"], ["write", "a.py", HEAD19[3] + "x = ($add 1 2)\n"], ["write", "a.py", HEAD19[1] + "($\n"], ["write", "a.py", HEAD19[0] + BAD19[2]],
                                                                             ["touch", "a.py", 1002], ["write", "a.yugen.py", "print(7)\n"], ["write", "a.yugen.py", "print(\n"], ["write", "a.yuconfig", "dependency = ['d.txt']\npp_define = ['z:4']\n"], ["write", "a.yuconfig", "force = True\nread_only = False\n"], ["touch", "d.txt", 1001], cli("a.py"), ["write", "a.py", HEAD19[2] + "($set __OUTPUT_FILE__ (`o.py))print(($upper z))\n"]]), 3, 4, 260, 1500),
]

# ---- C20: the interactive loop ----
LINES = [["($set x 1)"], ["($x)"], ["test"], [" test "], ["exit"], ["($int (`q))"], ["["], ["]"], [""], ["tests"], ["($"], ["  ($__FILE__)($__PASSAGE__ (1 2))"]]
H["C20"] = [
    ("lines", scen([], LINES, mode="repl", args=B), 4, 5, 500, 6000),
    ("lines with options", scen([("inc/a.yu", "($set x INC)a")], [["($V)"], ["($import a)($x)"], ["($x)"], ["test"], ["\t// ($V)"], [""], ["exit"]], mode="repl", args=B + ["-D", "V:4", "-d", "inc", "--pp-skip-comments", "1", "--pp-browse"]), 4, 5, 260, 3000),
    ("text and loop", scen([("a.c.yu", "($x)")], [["repl", i, *B, *o, "-i", t, *f] for t in ("($set x 1)($x)", "($", "plain", "($int (`q))", " ", "($__FILE__)") for i in ("", "($x)\ntest\n", "exit\n") for o in ([], ["--input-source", "web"], ["-D", "x:3"]) for f in ([], ["a.c.yu"])]), 1, 1, 110, 110),
    ("one loop after another", scen([("a.c.yu", "($x)")], [["repl", "($set x 1)($x)\ntest\n", *B], ["repl", "($x)\ntest", *B], ["repl", "($set y", *B], ["repl", ")\ntest\n($x)\n test\nexit\n($x)\n", *B], cli("a.c.yu"), cli("-i", "($set x 2)($x)", "a.c.yu")], iso=True), 3, 3, 80, 250),
]

# ---- C25: passages ----
FILES25 = [("a.c.yu", "($__PASSAGE__ (a b c))\n"), ("b.c.yu", "($__PASSAGE__ (1 2))($set __OUTPUT_FILE__ [b($__PASSAGE__ (1 2)).txt])($x)($set x 5)\n"), ("c.c.yu", "($__PASSAGE__ (x))\n"), ("d.c.yu", "none\n"),
           ("e.c.yu", "($set n ($__PASSAGE__ (4 2 0 1)))($set __OUTPUT_FILE__ [e($n).txt])($div 8 ($n))\n"), ("f.c.yu", "($__PASSAGE__ (1 2))($ ($equal ($__PASSAGE__ (1 2)) 2) ? ($int (`q)) | [ok])\n"), ("g.c.yu", "($__PASSAGE__ ())\n"), ("h.c.yu", "($__PASSAGE__ 5)\n"),
           ("i.c.yu", "($import (`p.yu))!\n"), ("p.yu", "($__PASSAGE__ (i j))"), ("j.c.yu", "($__PASSAGE__ (1 2 3))($__PASSAGE__ (1 2))\n"), ("k.c.yu", "($__PASSAGE__ (1 2))($__PASSAGE__ (1 2 3))\n"), ("l.c.yu", "($ 0 ? ($__PASSAGE__ (1 2)) | n)\n"),
           ("m.c.yu", "($set v (u v w))($set g \\x.[($__PASSAGE__ ($x))])($g ($v))($__PASSAGE__ ((1 2) (3)))\n"), ("n.c.yu", "($emit v)($set v (1 2))($__PASSAGE__ (q r))\n"), ("t.c.yu", "($__PASSAGE__ (1 2))" + AST), ("o.c.yu", "($__PASSAGE__)\n"), ("q.yu-h", "[($__PASSAGE__ (1 2 3 4 5 6 7 8))]\n")]
N25 = [f[0] for f in FILES25 if f[0] != "p.yu"]
H["C25"] = [
    ("each source and pairs", scen(FILES25, [cli(x) for x in N25] + [cli(x, y) for x in N25 for y in N25 if x != y], []), 1, 1, 200, 400),
    ("histories", scen(FILES25, [cli("a.c.yu"), cli("b.c.yu", "e.c.yu"), cli("e.c.yu"), cli("f.c.yu", "a.c.yu"), cli("--pp-browse", "a.c.yu", "d.c.yu"), ["proc_file", "a.c.yu"], ["proc_stream", "b.c.yu"], ["proc_stream", "e.c.yu"], ["repl", "($__PASSAGE__ (1 2))\ntest\n($__PASSAGE__ (1 2))\ntest\n", *B], cli("--type-file", "b.c.yu"), cli("-o", "o", "b.c.yu"),
                                  ["write", "a.c.yu", "($__PASSAGE__ (1 2))($\n"], cli("q.yu-h")], ["o"], iso=True), 3, 4, 300, 3000),
]
