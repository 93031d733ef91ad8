"""C13: programs whose capital letters are marks, written with the map of the output, and histories of such runs."""
import props_hist
from props_lang import G
from props_hist import scen, cli, main, B

FM = [["i.yu", "i M\n($set z [ M\n   M])"], ["j.yu", "($import i)\n M ($z)\n"], ["inc/k.yu", "  ($set g \\x.[\n M($x)\n   M\n])"], ["n.yu", "n"]]
PIECES = ["M", "M\n", " M", "\n", "\n\n", "  ", "\"M\"", "'M'", "// M\n", "/* M */", "{M}", "\tM\n", "e\u0301"[:1]]
DEFS = ["($set x [M])", "($set x [M\n    M])", "($set x M)", "($set x (`M m))", "($set x \"M\")", "($set f \\x.[M($x)M])", "($set f \\x.[\n  M($x)\n    M\n])", "($set x (M [M] \"M\"))", "($set f \\a:[M].\\b:[ M ].[($b)M($a)])", "($set x ($ [M]))", "($set x ]\n  M\n  M\n[ )", "($set x [M\n  ])", "($! M)", "($! M\n)\n", "($set x [M  \n\n\n   M])"]
USES = ["($x)", "  ($x)", "\n    ($x)", "($f [M])", "($f ($x))", "\n  ($f [M\n  M])", "($ 1 ? [M] | [M])", "($ [M($x)M])", "($let x [M] [($x)M])", "($ (1 2) \\p.[M($p)])", "($ ($x) \\p.[($p)M])", "($add 1 2)", "($f)", "($ [\n   M\n     M\n  ])", "   ($ [\n M\n M])", "($ \\p.[($p)M($p)] [M])", "($ [m,] [n])", "($ ,,M;;)", "($[m,\n k] n)", "($x)\n  ($x)"]
IMPS = ["($import i)", "($import j)", "($import \"inc/k.yu\")", "  ($import \"i.yu\")", "($z)", "\n  ($z)", "($g [M\n M])", "   ($g M)", "($import \"n.yu\")"]
MACS = ["($macro m (a) M($a)M)", "($macro m (a)\n  M($a)\n  M)", "($macro m (a) [M($a)\n  M])", "($m M)", "  ($m [M])", "($m (`M))", "\n   ($m M)", "($set y ($m M))($y)", "($$ (`M))", "($set s (`[k]))($$ s)", "($m ($m M))"]


def add(label, q, t, **g):
    G.setdefault("C13", []).append((label, dict(dict(law="browse", files=FM, start=["@S"], marks=True, opts=["--pp-browse"], reduce=True), **g), q, t))


S = {"S": [[1, "@X"], [1, "@X", "@S"]]}
for trim in (True, False):
    for red in (True, False):
        w = " (%s trimming, %s reduction)" % ("with" if trim else "without", "with" if red else "without")
        d = dict(trim=trim, reduce=red)
        if trim == red:
            add("pieces" + w, 2, 3, rules=dict(S, X=[[0, x] for x in PIECES + USES[5:8]]), **d)
        add("definitions and uses" + w, 2 if trim and red else 1, 2, start=["@D", "@P", "@S"], rules=dict(S, D=[[0, x] for x in DEFS], P=[[0, x] for x in (("", "  ") if trim and red else ("", "M\n", "  "))], X=[[0, x] for x in USES + ["M", "\n", " ", "\n\n\n"]]), **d)
INDS = [" \tM\n", "  M\n", "\tM\n", "\t M\n", "M\n", "   M\n", "\n", " \n", "\t\tM\n", "  \n"]
add("lines of a block", 4, 5, start=["@I", "($ ]\n", "@S", "[ )", "@E"], rules={"S": [[1, "@X"], [1, "@X", "@S"]], "X": [[0, x] for x in INDS], "I": [[0, "  "], [0, ""], [1, "\t"]], "E": [[0, ""], [1, "\nM"]]})
SETM = ["($macro m (a) ($set y [($a)\n  M])M\n M($y))", "($macro m (a)\n ($set x ($a))\n M\n\n  M)", "($macro m (a) ($set f \\p.[($p)\nM])\n    M($f ($a))\n)"]
add("definitions in macros", 2, 3, start=["@D", "@I", "($m [M])", "@S"], rules={"D": [[0, x] for x in SETM], "I": [[0, x] for x in ["", "  ", "\n    ", "M\n\t"]], "S": ["", [1, "@X", "@S"]], "X": [[0, x] for x in ["($x)", "($y)", "($f [M])", "\n  ($f M)", "M", "\n", "\n  ($m [M])", "  ($x)"]]})
add("imports", 3, 4, rules=dict(S, X=[[0, x] for x in IMPS + ["M", "\n"]]))
add("macros", 3, 3, rules=dict(S, X=[[0, x] for x in MACS + ["M", "\n"]]))
SM = ["($set f \\x.[($x)M($x)])", "($f [M])", "($f ($f [M]))", "($set x [M($y)M])", "($set y [M])", "($x)", "($y)", "M"]
add("definitions in turn", 4, 5, rules=dict(S, X=[[0, x] for x in SM]))
PYM = ["M", "'M'", "\"\"\"M\nM\"\"\"", "# M\n", "($ 'M')", "    ($ [\n  M\n    M\n  ])", "($set x [M])", "($x)", "\n", "r'M'"]
add("Python sources", 3, 4, name="t.py.yu", rules={"S": [[0, "# coding: yupp\n", "@T"], [0, "#!/usr/bin/env python\n# coding: yupp.utf8\n", "@T"], [0, "@T"]], "T": [[1, "@X"], [1, "@X", "@T"]], "X": [[0, x] for x in PYM]})
add("comments", 2, 3, skip=1, rules=dict(S, X=[[0, x] for x in ["// M ($ [M])\n", "/* M\n ($x) M */", "($ [M // ($ M\n])", "M", "($ [M])", "\"// M\"", "\n", "  ($ [\n  M\n])"]]))

# ---- histories ----
FH = [("a.c.yu", "A($set x [B\n  C])\n   ($x)\n"), ("b.c.yu", "($import i)D\n  ($z)\n"), ("i.yu", "E\n($set z [F\n G])"), ("s/c.h.yu", "($import d)H"), ("s/d.yu", "I\n"), ("e.c.yu", "($int (`q))"), ("p.c.yu", "J($__PASSAGE__ (1 2))($set __OUTPUT_FILE__ [p($__PASSAGE__ (1 2)).txt])K\n"), ("t.c.yu", "($ \\x.[($x)])"), ("k.c.yu", "($macro m (a)\n  L($a)\n)  ($m N)O")]
CH = [cli("--pp-browse", "a.c.yu"), cli("a.c.yu"), cli("--pp-browse", "b.c.yu", "a.c.yu"), cli("--pp-browse", "-o", "o", "s/c.h.yu", "b.c.yu"), cli("--pp-browse", "e.c.yu", "p.c.yu"), cli("--pp-browse", "--no-read-only", "t.c.yu", "k.c.yu"), cli("--pp-browse", "--pp-no-browse", "b.c.yu"),
      ["write", ".yuconfig", "pp_browse = True\n"], ["proc_stream", "b.c.yu"], ["proc_file", "a.c.yu"], ["write", "i.yu", "\n\n\n P\n($set z [\n   Q])"], ["rm", "a.c"], cli("--pp-browse", "-i", "($set x 1)X", "a.c.yu")]
props_hist.H["C13"] = [
    ("runs and maps", dict(scen(FH, CH, ["o"], iso=True), marks=True), 2, 3, 170, 2000),
    ("maps of several files", dict(scen(FH, [cli("--pp-browse", *o, x, y) for o in ([], ["--pp-no-trim-app-indent"], ["--pp-no-reduce-emptiness"]) for x in ("a.c.yu", "b.c.yu", "s/c.h.yu", "p.c.yu", "k.c.yu", "e.c.yu") for y in ("a.c.yu", "b.c.yu", "s/c.h.yu", "p.c.yu", "k.c.yu", "t.c.yu") if x != y], []), marks=True), 1, 1, 100, 100),
]
