"""C21: the standard library against the core language and against texts; see props_lang.py and grammar.py for the notation."""
from props_lang import add, TRUE, FALSE

STD = "($import stdlib)"
TRUE = [x for x in TRUE if x not in ("zz",)]
C = dict(law="equiv")
# the control functions are the conditional expression
IFS = [("($if %1 %2 %3)", "($ %2 ? %1 | %3)"), ("($unless %1 %2 %3)", "($ %3 ? %1 | %2)"), ("($if %1 %2)", "($ %2 ? %1 | [])"), ("($unless %1 %2)", "($ [] ? %1 | %2)"), ("($if %1 \\else %2 \\then %3)", "($ %3 ? %1 | %2)"),
       ("($if %1 \\else %2)", "($ [] ? %1 | %2)"), ("($unless %1 \\else %2)", "($ %2 ? %1 | [])"), ("($if \\cond %1 %2 %3)", "($ %2 ? %1 | %3)"), ("($unless ($unless %1 0 1) %2 %3)", "($ %3 ? ($ 1 ? %1 | 0) | %2)"),
       ("($if %1 [($if ($not %1) %2 %3)] %2)", "($ [($ %3)] ? %1 | %2)"), ("($if %1)", "($ [] ? %1 | [])")]
add("C21", "if and unless", 1, 1, **C, start=["($import stdlib)($set x 4)", "@E"],
    rules={"E": [[0, "@C!1", (x[0].replace("%2", "[v($x)]").replace("%3", "(`q)"), x[1].replace("%2", "[v($x)]").replace("%3", "(`q)"))] for x in IFS], "C": TRUE + FALSE + ["($eq ($x) 4)", "{ x > 4 }"]})
add("C21", "if and unless in other places", 2, 2, **C, start=["($import stdlib)($set x 4)", "@W"],
    rules={"W": [["($ \\a.[<($a)>] ", "@E", ")"], ["($let x 5 [", "@E", "($x)])"], ["[($ (1 2) \\i.[", "@E", "])]"]], "E": [[1, "@C!1", "@V!2", "@V!3", x] for x in IFS],
           "C": [[0, x] for x in ("1", "0", "[($x)]", "()", "{ x > 4 }")], "V": [[0, "[v($x)]"], [0, "7"], [0, "[]"]]})
UNF = []
for n in range(6):
    for k in range(4):
        vals = ["[a]", "[b($x)]", "7"][:k]
        out = ["a", "b4", "7"][:k]
        for f, t in (("\\n.[v($n),]", "v%d,"), ("\\n.($add n ($x))", None), ("\\n.[($if ($n) [k] [z])]", None)):
            want = "".join(out[i] if i < k else (t % i if t else str(i + 4) if "add" in f else "k" if i else "z") for i in range(n))
            UNF.append((["($unfold %d %s)" % (n, " ".join(vals + [f])), want]))
add("C21", "unfold", 1, 1, law="denotes", start=[("($import stdlib)($set x 4)", ""), "@S"],
    rules={"S": [tuple(x) for x in UNF] + [("($ \\c.($unfold c [a] \\n.[($n)]) %d)" % n, "".join("a" if i == 0 else str(i) for i in range(n))) for n in range(5)]
           + [("($unfold 3 \\n.($unfold ($n) [w] \\m.[($n)($m)]))", "ww21"[0:1] + "w21"), ("($unfold { 1 + 1 } *(1 2 3) \\n.[($n)])", "12")]})

# the dictionary: every column of every row, by loops and by number
DICT = []
ROWS = {(1, 1): [["1"]], (2, 2): [["1", "2"], ["(`p q)", "r"]], (3, 2): [["1", "2", "x"], ["4", "\"s\"", "[c]"]], (2, 3): [["1", "2"], ["3", "4"], ["5", "6"]], (2, 0): [], (1, 3): [["7"], ["8"], ["9"]]}
shown = lambda v: {"(`p q)": "p q", "[c]": "c"}.get(v, v)
for (c, r), rows in ROWS.items():
    cols = ["id", "val", "type3"][:c]
    decl = "($dict K (` %s ) (` %s ))" % (" ".join(cols), " ".join("(%s)" % " ".join(q) for q in rows))
    body = "".join("[($i %s)]" % x for x in cols)
    DICT.append((decl, "|($each-K \\i.[%s;])|" % "".join("<($i %s)>" % x for x in cols), "|%s|" % "".join("".join("<%s>" % shown(v) for v in q) + ";" for q in rows)))
    for k in range(-r, r):
        DICT.append((decl, "|($%d %s)|" % (k, cols[-1]), "|%s|" % shown(rows[k][c - 1])))
        DICT.append((decl, "|($let n %d [($n %s)])|" % (k, cols[0]), "|%s|" % shown(rows[k][0])))
    if r:
        DICT.append((decl, "|($cols-K \\c.[($c ($0 (%s)))])|" % " ".join(cols), "|%s|" % "".join(shown(rows[k][0]) for k in range(min(c, r)))) if c <= r else (decl, "|($cols-K)|", "|%s|" % "".join(map(str, range(c)))))
    DICT.append((decl, "|($cols-K)($each-K)|", "|%s%s|" % ("".join(map(str, range(c))), "".join(map(str, range(r))))))
    DICT.append((decl, "|($set w ($1 (5 %s)))($w)|" % cols[0], "|%s|" % "".join(shown(q[0]) for q in rows)))
DICT.append(("($dict A (` a b) (` (1 2)))($dict B (` c) (` (3) (4)))", "|($each-A \\i.($each-B \\j.[($i a)($i b)($j c),]))|", "|123,124,|"))
add("C21", "dict", 1, 1, law="denotes", start=[("($import stdlib)", ""), "[", "@S", "]"],
    rules={"S": [(d + u, "\n\t" * d.count("($dict") + w) for d, u, w in DICT]})

# macros of texts
TX = ["x = 1;", "foo(); bar( a );", "if (c) { y; }", "($add 1 2);", "($x)", "while (0);", "a\n  b"]
val = lambda t: t.replace("($add 1 2)", "3").replace("($x)", "4")
SK = [("($skip-if %s)" % c, c in TRUE) for c in ["1", "0", "[a]", "()", "($eq 1 1)", "($eq 1 2)"]] + [("($skip-if-not %s)" % c, c in FALSE) for c in ["1", "0", "[a]", "()", "($eq 1 1)", "($eq 1 2)"]]
add("C21", "blocks and switches", 1, 1, law="denotes", start=[("($import stdlib)($set x 4)", ""), "@S"],
    rules={"S": [("($do,,%s)" % t, "do {\n%s\n} while ( 0 )" % val(t)) for t in TX if t != "a\n  b"] + [("($do ]\n%s\n[ )" % t, "do {\n%s\n} while ( 0 )" % val(t)) for t in TX] + [("($foo,,%s)" % t, "({\n%s\n})" % val(t)) for t in TX if t != "a\n  b"]
           + [("($foo ]\n%s\n[ )" % t, "({\n%s\n})" % val(t)) for t in TX] + [("($do [($do,,y();)])", "do {\ndo {\ny();\n} while ( 0 )\n} while ( 0 )")]
           + [("before %s after" % t, "before " if b else "before  after") for t, b in SK]
           + [("($def NAME)|($NAME)($ (`t) ? NAME | (`f))", "#define NAME|1t"), ("($undef NAME)|($NAME)($ (`t) ? NAME | (`f))", "#undef  NAME|0f"), ("($set NAME 1)($undef,,NAME)|($NAME)", "#undef  NAME|0"), ("($set NAME 0)($def,,NAME)|($NAME)", "#define NAME|1"),
              ("($def-if 1 NAME)|($NAME)", "#define NAME|1"), ("($def-if 0 NAME)|($NAME)", "|0"), ("($def A)($def-if A B)|($B)", "#define A\n#define B|1"), ("($undef A)($def-if ($not A) B)|($B)", "#undef  A\n#define B|1"), ("($undef A)($def-if A B)|($B)", "#undef  A\n|0"),
              ("($def A)($undef B)($skip-if-not A)x($skip-if B)y($skip-if A)z", "#define A\n#undef  Bxy")]})
DEFS = [("a", "1"), ("f( x )", "( x )"), ("array_length( x )", "( sizeof( x ) / sizeof(( x )[ 0 ]))"), ("M", "($add 1 2)"), ("M($x)", "($x)"), ("E", "")]
BODY = ["one", "one\n  two", "one\ntwo\n\nthree", "\n  one\n  two\n"]
add("C21", "define", 1, 1, law="denotes", start=[("($import stdlib)($set x 4)", ""), "@S"],
    rules={"S": [("($define,,%s,,%s)" % (a, b), ("#define %s %s" % (val(a), val(b)))) for a, b in DEFS] + [("($define [%s] [%s])" % (a, b), "#define %s %s" % (val(a), val(b))) for a, b in DEFS]
           + [("($define [N] [%s])" % b, "#define N " + b.replace("\n", " \\\n")) for b in BODY[:3]] + [("($define [N] ]\n%s\n[ )" % b, "#define N " + b.replace("\n", " \\\n")) for b in BODY[:3]]
           + [("($set d ($define [N]))($d [1])($d [2])", "#define N 1#define N 2")]})
add("C21", "other ends of lines in define", 1, 1, law="denotes", start=[("($set EOL ($unq \"@\"))($import stdlib)", ""), "@S"],
    rules={"S": [("($define [N] [a@b])", "#define N a \\@b"), ("($define [N@] [a])", "#define N \\@ a")]})
BITS = ["0", "1", "101", "00110", "11001010110010100000", "1111111111111111", "11111111"]
add("C21", "binary numbers", 1, 1, law="denotes", start=[("($import stdlib)", ""), "@S"],
    rules={"S": [("($BIN,,%s)" % b, str(int(b, 2))) for b in BITS] + [("($BIN (`%s))" % b, str(int(b, 2))) for b in BITS] + [("($BIN \"%s\")" % b, str(int(b, 2))) for b in BITS[:0]] + [("{ ($BIN [%s]) + 1 }" % b, "{ %d + 1 }" % int(b, 2)) for b in BITS]
           + [("($BB,,%s)" % ",,".join(q), str(int("".join(q), 2))) for q in (["10110011"], ["00000001", "00000000"], ["00000010", "10110010", "10110001"], ["01111111", "11111111", "00000000", "10110000"], ["00000000"] * 3)]
           + [("($hex ($BB [00001111] [11110000]))", "0xff0"), ("($BIN,,102)", ""), ("($INT_MAX)", "9223372036854775807"), ("($INT_MIN)", "-9223372036854775808"), ("($add INT_MIN INT_MAX)", "-1")][0:1]})
add("C21", "numbers of the machine", 1, 1, law="none", keep=True, start=["($import stdlib)", "@S"],
    rules={"S": ["($INT_MAX)", "($INT_MIN)", "($add INT_MIN INT_MAX)", "($ { INT_MAX + INT_MIN })", "($lt 5 INT_MAX)", "($ { -5 > INT_MIN })", "($BIN,,102)", "($BIN,,)"]})

# functions of variable arguments in C
ARG = [("($ &arg-begin)", "\tva_list argptr;\n\tva_start( argptr, argcnt );"), ("while ( ($ &arg-count)-- ) s += ($ &arg-value &type);", "\twhile ( argcnt-- ) s += va_arg( argptr, int );"), ("($ &arg-end)", "\tva_end( argptr );"),
       ("x = ($ &arg-value double);", "\tx = va_arg( argptr, double );"), ("return 0;", "\treturn 0;"), ("($name) ($add 1 2)", None)]
add("C21", "functions of variable arguments", 3, 4, law="none", start=["($import stdlib)\n($def-fn-argv ", "@T", " sumi ]\n", "@B", "[ )\nend\n"],
    rules={"T": ["int", "[unsigned long]", "double"], "B": [["\t", "@L", "\n"], ["\t", "@L", "\n", "@B"]], "L": [a for a, _ in ARG]})

# names of the library in programs of their own
add("C21", "programs", 3, 4, law="none", noast=True, start=["($import stdlib)", "@P"],
    rules={"P": ["@L", ["@L", "@P"]],
           "L": ["($set if 5)($if)\n", "($let if \\a.[($a)!] ($if 3 4))", "($import stdlib)", "($ (1 0) \\c.($if c [y] [n]))\n", "($dict T (` a b) (` (1 2) (3 4)))\n", "($each-T \\i.[($i a)/($i b) ])\n", "  ($do ]\n  x;\n    y;\n  [ );\n", "($def A)\n", "($undef,,A)\n", "($if A [A] [no A])\n",
                 "($unfold 3 [z] \\n.[($n)])", "($macro w (a) [($if (`($a)) [($a)] [none])])($w q)($w,,)\n", "($ (0 1 2) \\n.($unless n [zero] [n($n)]))", "($set f \\n.($if { n < 1 } 0 [($n)($f { n - 1 })]))($f 3)", "($import (`stdlib.yu))\n"]})

# headers: what one file declares, seen from it and from others
DECL = ["($extern) void foo( char *a );", "($extern) char *bar ($init,,\"The Blind Beggar\");", "($extern-c) int corge( double val );", "($var,,bool plugh)", "($var-init,,short fred[ 3 ],,{ 7, 11, 13 })", "($var-c,,float flob)", "($var-c-init,,char *xyzzy,,\"off\")", "($extern-c-begin)", "($extern-c-end)",
        "($inline) int qux( int a, b ) { return (( a > b ) ? a : b ); }", "($var,,int ($x))", "($h-name)"]
LIGHT = [d for d in DECL if "init,," not in d.split("($init")[0] or "var-init" in d]
for lab, pre, decl in (("full", "($set hlib-light 0)($import hlib)", DECL), ("by default", "($import hlib)", DECL), ("light", "($set hlib-light 1)($import hlib)", [d for d in DECL if "extern)" not in d and "extern-c)" not in d and "var-c" not in d]),
                       ("alone", "($import h)", DECL), ("light alone", "($import h-light)", [d for d in DECL if "extern)" not in d and "extern-c)" not in d and "var-c" not in d])):
    add("C21", "headers, " + lab, 3 if lab == "by default" else 2, 3, law="none", keep=False, name="a-b.yu-h", trim=True, reduce=lab != "alone", start=["($set x 4)" + pre + "\n", "@I", "@B", "\n", "@D", "\n", "@E"],
        rules={"I": [[0, ""], "($implement-named)\n", "($implement other)\n"], "B": [[0, "($h-begin-named)"], "($h-begin unit)", "($h-begin,,Unit_2)"], "D": [[0, d] for d in decl] + [[1, a, "\n", b] for a, b in zip(decl, decl[1:])], "E": [[0, "($h-end)\n"]]})
