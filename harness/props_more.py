"""Grammars of C08 to C24, see props_lang.py and grammar.py for the notation."""
from props_lang import add, G

# ---- C08: built-in functions and infix expressions ----
S = ["(`abc)", "\"abc\"", "(`)", "(`a b  c)", "'x'", "(`Hello wORLD)", "(`-42)", "(`aXbXcX)", "(` pad\t)", "[code ($ 1)]", "\"\\t\\\"q\"", "(`7)", "\"\"", "foo", "(`1.5)"]
I = ["0", "1", "-1", "5", "-7", "12", "0x1F", "100000", "+3", "0b101"]
F = ["2.5", "-0.5", "0.0", "1.", "1e3"]
L = ["()", "(1 2 3)", "((`a) (`b) (`a))", "(3 1 3 \"x\")", "((1 2) (3))", "(0)", "(`ab)", "(2.5 1)"]
ANY = S[:6] + I[:4] + F[:1] + L[:3]


def call(label, fns, pools, quick=0, thorough=0, cap=None, wrap=("($", ")")):
    """every function on every combination of arguments"""
    start = [wrap[0], "@F"]
    rules = {"F": [[0, f] for f in fns]}
    for k, p in enumerate(pools):
        start += [" ", "@P%d" % k]
        rules["P%d" % k] = [[0, x] for x in p]
    add("C08", label, quick, thorough, law="none", trim=False, keep=True, start=start + [wrap[1]], rules=rules)


call("strings", ["lower", "upper", "swapcase", "capitalize", "capwords", "strip", "lstrip", "rstrip", "q", "qs", "unq", "str", "strlen", "len", "reversed", "car", "cdr", "crc32", "ord", "isdigit", "islist", "list", "split", "expandtabs", "atoi", "atol", "atof", "int_", "rsplit", "isatom"], [S])
call("numbers", ["inc", "dec", "neg", "pos", "abs", "invert", "not", "truth", "hex", "oct", "chr", "str", "int_", "round", "q", "strlen", "isdigit", "islist", "list", "unq", "ord", "isatom"], [I + F])
call("lists", ["len", "car", "cdr", "reversed", "unique", "sum", "join", "islist", "list", "not", "truth", "isatom", "fsum", "prod"], [L])
call("wrong kinds", ["upper", "inc", "len", "sum", "hex", "chr", "join", "unique", "neg", "strip", "unq", "reversed", "isdigit", "abs", "car", "split", "range", "not"], [ANY])
call("no arguments", ["list", "range", "int_", "str", "upper", "len", "pi", "digits", "hexdigits", "octdigits", "ascii_letters", "ascii_lowercase", "ascii_uppercase", "e", "punctuation", "__FILE__", "__OUTPUT_FILE__", "__MODULE_NAME__", "SPACE", "TAB", "tau"], [])
call("arithmetic", ["add", "sub", "mul", "div", "floordiv", "mod", "pow", "truediv"], [I + F[:2], I[:7] + F[:2]])
call("bits", ["and", "or", "xor", "lshift", "rshift"], [I, ["0", "1", "-1", "3", "12", "31", "0xF"]])
call("comparisons", ["lt", "le", "eq", "ne", "ge", "gt", "cmp"], [["0", "-1", "5", "2.5", "(`a)", "(`b)", "\"a\"", "(1 2)", "()", "a"], ["0", "-1", "5", "2.5", "(`a)", "\"b\"", "(1 3)", "()", "a"]])
call("sequences", ["concat", "add", "contains", "index", "rindex", "find", "rfind", "count", "split", "rsplit", "strip", "lstrip", "rstrip", "join", "getitem"],
     [["(`abcab)", "\"aba\"", "(`)", "(1 2 1)", "((`a) (`b) (`a))", "(`1 2 1)", "()"], ["(`a)", "(`ab)", "(`)", "\"a\"", "1", "-1", "(1)", "(` )"]])
call("numbers of repetitions", ["repeat", "mul", "ljust", "rjust", "center", "expandtabs", "getslice", "split", "round", "modf", "ldexp"], [["(`ab)", "(`-5)", "\"x\"", "(1 2)", "7", "2.567", "(`)", "(`a\tb c d)"], ["0", "1", "3", "-1", "8"]])
call("padding with zeros", ["zfill"], [["(`ab)", "(`-5)", "\"x\"", "7", "-12", "(`)", "(`+1)", "2.5", "0x10"], ["0", "1", "3", "8"]])
call("slices", ["getslice"], [["(`abcdef)", "(1 2 3 4)", "\"xy\"", "()"], ["0", "1", "-2", "(`)", "9"], ["0", "2", "-1", "(`)", "9"], ["1", "2", "-1", "(`)"]])
call("slices of two", ["getslice"], [["(`abcdef)", "(1 2 3 4)", "\"xy\"", "()"], ["0", "1", "-2", "(`)", "9"], ["0", "2", "-1", "(`)", "9"]])
call("three strings", ["replace", "find", "count", "rfind"], [["(`abcab)", "\"ab\"", "(`)"], ["(`a)", "(`b)", "(`)", "(`ab)"], ["(`b)", "(`)", "\"z\"", "1", "2", "-1"]])
call("parts of strings", ["split", "rsplit", "replace"], [["(`a,b,,c)", "(`)", "\"a,b\""], ["(`,)", "(`,,)"], ["0", "1", "2", "-1"]])
call("bounds of strings", ["find", "rfind", "count"], [["(`abcab)", "(`aaa)"], ["(`a)", "(`ab)"], ["0", "1", "3"], ["2", "5", "-1"]])
call("replacement", ["replace"], [["(`abcab)", "(`aaa)"], ["(`a)", "(`ab)"], ["(`X)", "(`)"], ["0", "1", "2", "-1"]])
call("ranges", ["range"], [["0", "3", "-2", "5"], ["0", "4", "-3", "7"], ["1", "2", "-1", "-2", "0"]])
call("ranges of two", ["range", "atoi", "int_", "round"], [["0", "3", "-2", "(`11)", "(`0x1F)", "\"7\"", "2.565"], ["0", "4", "-3", "2", "16"]])
call("folds", ["reduce"], [["add", "mul", "sub", "concat", "max", "cmp", "or", "foo"], ["()", "(1 2 3)", "((`a) (`b))", "(5)", "(2.5 2)", "(`xyz)"]])
call("folds from a value", ["reduce"], [["add", "mul", "sub", "concat"], ["()", "(1 2 3)", "((`a) (`b))"], ["10", "(`z)", "(9)", "-1"]])
call("sums", ["sum", "join", "re-split"], [["(1 2 3)", "()", "((`a) (`b))", "(2.5 1)", "(`a)", "(`[ab])", "(`,)"], ["10", "(`, )", "(`a,b)", "\"xaby\""]])
call("functions of real numbers", ["ceil", "floor", "trunc", "fabs", "sqrt", "exp", "log", "sin", "cos", "tan", "atan", "degrees", "radians", "factorial", "isnan", "isinf", "log10", "modf", "expm1", "log1p", "acos", "asin", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc"],
     [["0", "1", "2.5", "-0.5", "10", "-3", "(`x)"]])
call("functions of two real numbers", ["fmod", "hypot", "atan2", "copysign", "ldexp", "pow", "log", "gcd"], [["8", "2.5", "-3", "0"], ["2", "-2", "0", "10"]])
call("translations", ["translate"], [["(`hello)", "\"lol\"", "(`)"], ["($maketrans (`el) (`ip))", "($maketrans (`l) (`L))", "($maketrans (`) (`))", "($maketrans (`a) (`bc))"], ["(`)", "(`o)", "(`l)"]])
call("too many arguments", ["upper", "inc", "len", "neg", "not", "abs", "car", "unique", "islist", "pi", "isatom", "reversed"], [["(`a)", "1", "(1)"], ["1", "(`b)"]])
# built-ins applied as other functions are
add("C08", "built-ins as values", 1, 2, law="equiv", trim=False, start=["@V!1", "@W!2", "@B!3", "@S"],
    rules={"V": [[0, x] for x in ["7", "-2", "0x10"]], "W": [[0, "3"], [0, "5"]], "B": [[0, x] for x in ["add", "sub", "mul", "floordiv", "mod", "cmp", "xor"]],
           "S": [[0, (x, "($%3 %1 %2)")] for x in ["($ %3 %1 %2)", "($set f %3)($f %1 %2)", "($let f %3 ($f %1 %2))", "($ \\f.($f %1 %2) %3)", "($%3 *(%1 %2))", "($%3 *(%1) %2)", "($ \\a.\\b.($%3 a b) %1 %2)", "($let a %1 ($%3 a %2))", "($ \\a.\\b.($%3 a b) \\b %2 %1)",
                                            "($reduce %3 (%1 %2))", "($ { ($%3 %1 %2) })", "($%3 ($ %1) ($add %2 0))", "($ \\a.\\b:%2.($%3 a b) %1)", "($%3 %1 %2 \\%3)", "($ (%1) \\a.($%3 a %2))"]]})
add("C08", "special functions of parameters", 1, 2, law="equiv", trim=False, start=["@V!1", "@W!2", "@S"],
    rules={"V": [[0, x] for x in ["7", "a", "\"s\"", "(1 2)", "[t]", "(`q)", "()", "b-c", "($add 1 1)", "\\z.z", "add", "2.5"]], "W": [[0, "3"], [0, "x"], [0, "d"]],
           "S": [[0, (x, "($isatom %1)")] for x in ["($let x %1 ($isatom x))", "($ \\x.($isatom x) %1)", "($ \\x.\\y.($isatom x) %1 %2)", "($ \\y.\\x.($isatom x) %2 %1)", "($set g \\x.\\y.($isatom x))($g %1 %2)", "($ \\x.\\y.[($isatom x)] %1 %2)", "($ \\x:%1.($isatom x))", "($ \\x:%1.\\y.($isatom x) \\y %2)", "($ (%1) \\x.($isatom x))", "($ ($ \\x.\\y.($isatom x) %1) %2)", "($ \\o.\\x.($o x) isatom %1)",
                                                    "($ \\x.($ \\y.($isatom y) x) %1)", "($ \\x.\\y.($let z x ($isatom z)) %1 %2)", "($ \\x.\\y.($ ($isatom x) ? 1 | 0) %1 %2)", "($ \\x.\\y.($add ($isatom x) 0) %1 %2)"]]})
add("C08", "special functions of applications", 1, 2, law="equiv", trim=False, start=["@V!1", "@W!2", "@S"],
    rules={"V": [[0, x] for x in ["7", "a", "\"s\"", "(1 2)", "[t]", "(`q)", "()", "($add 1 1)", "2.5"]], "W": [[0, "3"], [0, "x"]],
           "S": [[0, (x, "($isatom %1)")] for x in ["($ \\x.\\y.($isatom ($ x)) %1 %2)", "($ \\x.\\y.($isatom ($ x ? 1 | y)) %1 %2)", "($ \\x.($isatom ($ x)) %1)", "($let x %1 ($isatom ($ x)))"]]})
add("C08", "folds of parameters", 1, 2, law="equiv", trim=False, start=["@V!1", "@W!2", "@B!3", "@S"],
    rules={"V": [[0, x] for x in ["(1 2 3)", "(4)", "((`a) (`b))", "(`xyz)", "()", "((1) (2))"]], "W": [[0, x] for x in ["10", "(`z)", "(9)"]], "B": [[0, x] for x in ["add", "sub", "concat", "mul"]],
           "S": [[0, (x, "($reduce %3 %1)")] for x in ["($ \\z.($reduce %3 z) %1)", "($ \\z.\\y.($reduce %3 z) %1 %2)", "($ \\o.($reduce o %1) %3)", "($ \\o.\\z.($reduce o z) %3 %1)", "($ \\z.\\o.($reduce o z) %1 %3)", "($set g \\o.\\z.($reduce o z))($g %3 %1)", "($let z %1 ($reduce %3 z))", "($ ($ \\o.\\z.($reduce o z) %3) %1)", "($ (%3) \\o.($reduce o %1))", "($ \\r.($r %3 %1) reduce)", "($ \\z.\\y.[($reduce %3 z)] %1 %2)", "($ \\z.\\y.($reduce %3 ($ z)) %1 %2)"]]
           + [[0, (x, "($reduce %3 %1 %2)")] for x in ["($ \\z.\\y.($reduce %3 z y) %1 %2)", "($ \\o.\\z.\\y.($reduce o z y) %3 %1 %2)", "($ \\z.($reduce %3 %1 z) %2)", "($ \\o.\\y.($reduce o %1 y) %3 %2)", "($reduce %3 *(%1 %2))"]]})
add("C08", "folds of no function", 2, 3, law="none", trim=False, start=["($reduce", "@A", "@A", "@A", ")"], rules={"A": ["", [1, " ", "@V"]], "V": [[0, x] for x in ["add", "1", "a", "(1 2)", "\\a.a", "()", "pi", "(`s)", "[t]", "($ add)", "(z 1)", "lazy"]]})
OPS = [("add", "+"), ("sub", "-"), ("mul", "*"), ("floordiv", "//"), ("mod", "%"), ("lt", "<"), ("le", "<="), ("eq", "=="), ("ne", "!="), ("ge", ">="), ("gt", ">"), ("and", "&"), ("or", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"), ("div", "/"), ("pow", "**")]
add("C08", "operators are functions", 1, 2, law="equiv", trim=False, keep=True, start=["@V!1", "@W!2", "@S"],
    rules={"V": [[0, x] for x in ["7", "-2", "0x10", "2.5"]], "W": [[0, "3"], [0, "5"], [0, "1"]],
           "S": [[0, (a % {"o": o}, "($%s %%1 %%2)" % f)] for f, o in OPS if o[0] not in "<>=!" or len(o) == 2 and o in ("<<", ">>")
                 for a in ["($ { (%%1) %(o)s (%%2) })", "(${} (%%1)%(o)s(%%2))", "($set x %%1)($set y %%2)($ { x %(o)s y })", "($ \\x.{ x %(o)s (%%2) } %%1)", "($let x %%1 { ($x) %(o)s ($ %%2) })"]
                 if o != "**"]})
E1 = [[0, "i"], [0, "3"], [0, "-2"], [0, "($i)"], [0, "2.5"], [0, "s"], [0, "l"], [0, "u8"], [0, "'q'"], [0, "0x1F"], [0, "($add i 1)"], [0, "(i)"], [0, "f"]]
E2 = [[0, "@E1"]] + [[1, "@E1", o, "@E1"] for o in (" + ", "*", " - ", " % ", " // ", " < ", " == ", " and ", " or ", " in ", "**", "/", " & ", " != ", " >> ")] + [[1, f, "@E1", ")"] for f in ("len(", "str(", "abs(", "int(", "not (", "-(", "upper(", "inc(", "hex(", "~(", "sum(", "bool(")] \
    + [[1, "@E1", " if ", "@E1", " else ", "@E1"], [1, "max(", "@E1", ", ", "@E1", ")"], [1, "add(", "@E1", ", ", "@E1", ")"], [1, "@E1", "[", "@E1", "]"], [1, "@E1", "[1:]"], [1, "'%s' % ", "@E1"], [1, "min(l[0], ", "@E1", ")"], [1, "@E1", ".upper()"]]
DEFS = "($set i 4)($set s (`ab))($set l (1 5 9))($set u8 0x10)($set f 1.5)"
add("C08", "infix expressions", 1, 2, law="none", trim=False, keep=True, start=[DEFS, "@W"],
    rules={"W": [[0, "(${} ", "@E2", ")"]], "E2": E2, "E1": E1})
add("C08", "infix expressions nested", 2, 3, law="none", trim=False, keep=True, start=[DEFS, "(${} ", "@E", ")"],
    rules={"E": [[0, "@X"], [1, "(", "@E", ") + ", "@E"], [1, "@E", " * ", "@E"], [1, "(", "@E", " < ", "@E", ")"], [1, "-", "@E"], [1, "int(", "@E", ")"]], "X": [[0, "i"], [0, "l[1]"], [0, "3"], [0, "2.5"], [0, "len(s)"]]})
add("C08", "infix in its place", 1, 2, law="none", trim=False, keep=True, start=["($set x 4)($set s (`ab))", "@S"],
    rules={"S": [[0, "($ ", "@C", ")"], [0, "($set y ", "@C", ")($y)"], [0, "($ \\a.", "@C", " 5)"], [0, "($ 1 ? ", "@C", " | 2)"], [0, "($add ", "@C", " 1)"], [0, "(", "@C", ")"], [0, "@C"], [0, "[", "@C", "]"], [0, "($ (", "@C", " 2) \\z.[($z);])"], [0, "($", "@C", " (5 6 7))"], [0, "($ [", "@C", "])"], [0, "($ \\a:", "@C", ".[<($a)>])"]],
           "C": [[0, x] for x in ["{x}", "{ x+1 }", "{x}{x}", "{}", "{ }", "{ '}' }", "{ {1} }", "{ x", "{ [1,2][0] }", "{ \"a\" }", "{ ($x) }", "{ x\n }", "{ (x }", "{ 1; 2 }", "{ x = 1 }", "{ s + '($x)' }", "{ \"{\" }", "{ # }", "{ a }", "{ &x }", "{ x ? 1 }", "{ 'it''s' }", "{ '\\n' }", "{ len('a}b') }", "{x:1}", "{ None }", "{ True }", "{ lambda: 1 }", "{ x if s else 0 }"]]})
add("C08", "bases and quotes", 1, 2, law="none", trim=False, keep=True, start=["@S"],
    rules={"S": [[0, "($ ", "@N", ")"], [0, "($add ", "@N", " 0)"], [0, "($set x ", "@N", ")($x) ($str x) ($q x) (${} x)"], [0, "($ (", "@N", ") \\x.[($x)])"], [0, "($ [($ ", "@N", ")])"], [0, "($eq ", "@N", " 16)"], [0, "($inc ", "@N", ")"], [0, "($ 1 ? ", "@N", ")"], [0, "($len ($str ", "@N", "))"], [0, "($neg ", "@N", ")"], [0, "($upper ", "@N", ")"], [0, "($concat ", "@N", " (`z))"], [0, "($hex ", "@N", ")"], [0, "($ ", "@N", " ", "@N", ")"]],
           "N": [[0, x] for x in ["0x10", "0X1f", "0b11", "0B1", "0o17", "0O7", "017", "+5", "-0x1", "1.50", "1e2", ".5", "5.", "10L", "0x", "0b2", "00", "- 3", "1_0", "\"a\"", "'a'", "\"\\x41\"", "u8\"x\"", "L'c'", "(`\"a\")", "R\"a\"", "0xFFFFFFFF", "12345678901234", "-1.5e-3", "1E5", "0x1.8", "'ab", "1:2"]]})

# ---- C09: layout ----
LAY = ["a", "\n", "\n  ", "\n\t", " ", "\n\n\n", "($m)", "($n)", "($e)", "($set v 1)", "($! c)", "($SPACE)", "($TAB)", "\t", "b;\n", "($k [x\n y])", "\n    ($m)\n"]
LAYDEFS = "($set m [p\n  q\n])($set n ]\n    r\n      s\n    t\n[ )($set e [])($set k \\z.]\n{\n   ($z)\n}\n[ )"
for trim in (True, False):
    for red in (True, False):
        q = (trim, red) != (False, False)
        add("C09", "layout trim=%d reduce=%d" % (trim, red), 3 if trim and not red else 2, 4, law="spaces", trim=trim, reduce=red, start=[LAYDEFS, "@S"],
            rules={"S": ["", [1, "@X", "@S"]], "X": LAY})
add("C09", "trimmed blocks", 2, 3, law="spaces", trim=True, start=["x\n", "@I", "($ ", "@B", ")", "@T"],
    rules={"I": [[0, "  "], [1, ""], [1, "\t"], [1, "    y "], [1, " \t "]], "B": [[1, "]\n", "@L", "\n[ "], [1, "[", "@L", "]"], [1, "]\n\n", "@L", "\n\n[ "], [1, "[\n", "@L", "\n]"], [1, "\\z.]\n", "@L", "\n[ 5"], [1, "(1 2) \\z.]\n", "@L", "\n[ "], [1, ",,\n", "@L", "\n;;"]],
           "L": [[0, "@W"], [1, "@W", "@L"]], "W": ["    a\n", "      b\n", "\tc\n", "d\n", "\n", "    ($ ]\n  e\n f\n[ )\n", "    f", "   \n", "  ($! c)\n", "    ($set q 1)\n", "    ($)\n", "\t  g\n", "    ($ [h\n   i])\n"], "T": [[0, "\n"], [1, ""], [1, "z"], [1, "  \nz"]]})
add("C09", "definitions leave nothing", 2, 3, law="denotes", trim=True, start=["a", "@D", "b"],
    rules={"D": [[0, x] for x in [("\n($set v 1)\n", "\n"), ("\n  ($set v 1)\n", "\n  "), (" ($set v 1) ", " "), ("\n($! c)\n", "\n"), ("\n($macro m () z)\n", "\n"), ("\n($set v 1)($set w 2)\n", "\n")]] and
     [[0, "\n", "@Y", "@Z", "\n"]], "Y": [[0, ("($set v 1)", "")], [0, ("($! c)", "")], [0, ("($macro m () z)", "")], [0, ("($set (u v) (1 2))\\t", "\\t")]], "Z": [[0, "x"], [0, "-"], [0, "x($v)" if 0 else "y"]]})
add("C09", "white space is kept", 2, 3, law="denotes", trim=True, start=["a", "@S", "z"], rules={"S": [[0, "@W"], [1, "@W", "@S"]], "W": [[0, x] for x in [" ", "  ", "\t", "\n", "\n  ", " \n", ("($SPACE)", " "), ("($TAB)", "\t"), "b", ("(` )", " "), ("(`\t)", "\t"), ("(`  c )", "  c ")]]})

# ---- C10: imports ----
IMPF = {"a.yu": "A", "b.yu": "($set x 5)", "c.yu": "<($x)>", "d.yu": "($macro m (p)[($p)])", "e.yu": "l1\nl2\n", "f.yu": "", "g.yu": "($import b)($import \"c.yu\")", "h.yu": "($set f \\a.[($a)($x)])", "i.yu": "(`q)($! c)", "j.yu": "($let x 9 [($x)])",
        "k.yu": "($x", "sub/l.yu": "L($x)", "n.yu": " t\n\n", "o.yu": "($import k)", "p.yu": "($set x { ($x) + 1 })"}
FL = [[k, v] for k, v in IMPF.items()]


def inl(t, n=0):
    """what a text means with its imports written out"""
    for k, v in IMPF.items():
        t = t.replace("($import %s)" % k[:-3], v).replace("($import \"%s\")" % k, v)
    return inl(t, n + 1) if n < 3 else t


for w in ("\"", "'", ""):
    add("C10", "import is inclusion, %s" % (w or "name"), 2 if w else 1, 3 if w else 1, law="equiv", trim=False, files=FL, start=["($set x 1)", "@S", "{($x)}"],
        rules={"S": [[1, "@X"], [1, "@X", "@S"]],
               "X": [[0, ("($import %s)" % ((w + k + w) if w else k[:-3]), inl(v))] for k, v in IMPF.items() if k not in ("k.yu", "o.yu") and (w or k[0] in "abdefhijn")]
               + [[0, "($set x 2)"], [0, "[($x)]"], [0, "($let y 3 [($x)])"]] + ([] if not w else [[0, ("($ [($import %sc.yu%s)])" % (w, w), "($ [<($x)>])")], [0, ("($let x 7 [($import %sc.yu%s)])" % (w, w), "($let x 7 [<($x)>])")], [0, ("($import   %sa.yu%s\n)" % (w, w), "A")],
                                                                                 [0, ("($import %sa.yu%s\\import)" % (w, w), "A")]])})
add("C10", "import programs", 3, 4, law="none", trim=False, files=FL, start=["($set x 1)", "@S"],
    rules={"S": [[1, "@X"], [1, "@X", "@S"]], "X": ["($import %s)" % k[:-3] for k in IMPF if "/" not in k] + ["($import \"%s\")" % k for k in ("b.yu", "c.yu", "k.yu", "sub/l.yu", "p.yu", "zz.yu")]
           + ["($import zz)", "\n", "($x)", "($m 3)", "($f 4)", "($set x 8)", "($import { 1 + 1 })", "($import { '($x)' })", "($import {})", "($import x y)", "($import)", "($import \"a.yu)", "($ [($import b)])($x)", "($import a-b)", "($import \"\")"]})
# scripts in Python: their names are built-in functions and constants
SCR = [["x.py", "def f(a): return a + 1\ndef g(a, b): return a * b\nK = [1, 2]\nS = 'st'\nN = None\nT = True\nF = 1.5\ndef l(*q): return list(q)\ndef n(): return None\ndef t(x): return x == 1\n"], ["y.py", "def f(a): return 'y' + a\ndef add(a, b): return a - b\nK = 8\n"], ["z.py", "1 +"],
       ["p/x.py", "def h(a): return f'<{a}>'\nS = 'other'\n"], ["w.PY", "def w(a, b=2): return a[b:]\n"], ["e.py", "raise ValueError()\n"], ["v.yu", "($import \"x.py\")[($f 6)]"], ["v1.py", "V = 3\n"]]
add("C10", "scripts", 2, 2, law="none", files=SCR, start=["($import \"x.py\")", "@S"],
    rules={"S": [[1, "@X"], [1, "@X", "@S"]], "X": [[0, x] for x in ["($import \"x.py\")", "($import \"y.py\")", "($import 'p/x.py')", "\n ($import \"z.py\")", "($import \"w.PY\" \\import)", "($import \"none.py\")", "($import \"e.py\")", "($import \"v.yu\")", "($f 1)", "[($f (`a))]", "($g 2 3)", "($K)", "($S)", "($N)", "($T)", "($F)", "($add 5 3)", "($h 4)", "($w (`abcd))",
                                                                     "($l 1 (2 3))", "($n)", "($t 1)", "($t 2)", "($K 1)", "($f \\a 1)", "($f)", "($f f)", "($f undef)", "($ \\u.($f u) 3)", "($ \\u.\\v.($g u v) 3 4)", "($reduce g (1 2 3) 4)", "($ (1 2) f)", "($ { f(2) + len(K) })", "($set f 9)", "($let f \\q.[q] ($f 1))", "($isatom f)", "($isatom K)", "($isatom k)", "($ ($K) \\e.<($e)>)", "($set q ($K))($emit q)($q)", "($ \\o.($o 5) f)", "($set r f)($r 1)", "($macro m (a) ($f ($a)))($m 3)", "($$ (`($f 7)))", "($f *(1))", "($g *($K))", "($f 1 2)", "($ 1 ? ($f 1) | ($f (`a)))", "f", "($f [1])", "($upper S)", "($upper ($S))", "($ [($f 1)($S)])", "($v1)", "($V)"]]})
add("C10", "library", 2, 3, law="equiv", trim=True, start=[("($import stdlib)", ""), "@S"], rules={"S": [[0, x] for x in ["a", "", "\n b", ("($ ($abs -3))", "3"), "x($add 1 2)"]]})

# ---- C12: places of errors ----
PRE = ["", "a", "\n", "\t", " \n  ", "\u00e9", "($! \n c)", "($set z 1)\n", "(`q\n)", "\"s\n\"", "($ [b\n])", "($import e)", "\r\n", "($m 1)", "x\ty"]
WRONG = ["($add 1)", "($f 1 \\zz 2)", "($car)", "($add 1 (`s))", "{ 1/0 }", "($ { y1 + })", "($9 (1 2))", "($upper 5)", "($f", "($let x)", "($macro)", "($set 5 5)", "($import nofile)", "($ \\x)", "($ 1 ? )", "($m)", "($u1 2)", "($ [x)", "($$ (`($add 1)))", "($m (`($car)))", "($w)", "($f \\q 1)", "($ \"a)", "(`", "($!", "($ (1 2)", "($emit l cdr x)", "($ )", "($ {1)",
         "($set t\n [($add 1)])($t)", "($ (1 0) \\e.{ 1 / e })", "($reduce add (1 (`s)))", "($isatom)", "($len)", "($l cdr)", "($ l \\a.\\b.[($add a)])", "($import k)", "($import q1)", "\u0103",
         "($ a::)", "($ a::b)", "($ \\a::.[x] 1)", "($ \\z..\\....[x] 1)", "($ \\.[x])", "($ \\x:.[x])", "($ \\x 1)", "($ \\(x).[<($x)>] 1)", "($ \\(l).[<>] 1)", "($ \\(x.[])", "($ \\().[])", "($upper \\a 5)", "($lazy)", "($isatom 1 2)", "($repr 1 2)", "($reduce)", "($reduce 1)", "($reduce add)", "($reduce 5 l)", "($add add 1)", "($pi 1)", "($1 l \\a 3)", "($ l \\x.[x] \\y 3)", "($ (1 2) \\a 3)",
         "($ \\z.($add 1 *z) ())", "($__PASSAGE__)", "($__PASSAGE__ 1)", "($skip 1)", "($import \"no.py\")", "($import \"b1.py\")", "($import \"g1.py\")($g1 0)", "($import \"g1.py\")($K1 0)", "($ undef 1)", "($emit undef)", "($ \\x.($emit x) 5 cdr)", "($ [a] 1)", "($ a \\b 1)", "($ (1 2) 5 6)"]
FL12 = FL + [["b1.py", "x = 1 +\n"], ["g1.py", "K1 = 3\ndef g1(x): return 1 // x\n"]]
DEF12 = "($set f \\q.[($add q (`n))])($macro m (p)\n<($p)>)($macro w ()a\n ($add 1))($set l (1 2))"
add("C12", "places", 3, 4, law="none", trim=False, files=FL12 + [["q1.yu", "\n  ($add 1)\n"], ["r1.yu", "($set rr \\x.[\n ($add x)])"]], start=["@P", DEF12, "@P", "@C", "@T"],
    rules={"P": [[1, x] for x in PRE] + [[0, "\n"]], "C": [[0, x] for x in WRONG], "T": [[0, x] for x in ["", "\n)", " ($add"]]})
add("C12", "places within", 2, 3, law="none", trim=False, files=FL12 + [["q1.yu", "\n  ($add 1)\n"], ["r1.yu", "($set rr \\x.[\n ($add x)])"]], start=[DEF12 + "\n", "@K", "\nend"],
    rules={"K": [[1, "($ [a\n ", "@C", "])"], [1, "($m [\n", "@C", "])"], [1, "($m (`", "@C", "))"], [1, "($$ (`\n", "@C", "))"], [1, "($let v (1\n ", "@C", ") [($v)])"], [1, "($set g \\x.]\n", "@C", "\n[ )\n($g 1)"], [1, "($ 1 ? ", "@C", ")"], [1, "($ ", "@C", " ? 1)"], [1, "(($upper ", "@C", ")"], [1, "($macro k (a)\n x", "@C", ")\n ($k 1)"],
                 [1, "($import r1)($rr 1)", "@C"], [1, "($macro k () ($m [", "@C", "]))($k)"], [1, "($ (1 2) \\x.[", "@C", "])"], [1, "($ \\x:", "@C", ".[($x)])"], [1, "($$ [($$ (`", "@C", "))])"], [1, "($f ", "@C", ")"], [1, "($set y ]\n", "@C", "\n[ )($y)"], [1, "($0 (", "@C", " 1))"]],
           "C": [[0, x] for x in WRONG]})

# ---- C23: what is well formed ----
GAPS = ["", " ", "\n", "\t ", "  ", "\n\n  "]
SGAP = [x for x in GAPS if x not in ("",)]
FORMS = [["($set", "@H", "x", "@H", "5", "@G", ")", "($x)"], ["($let", "@H", "x", "@H", "5", "@H", "[<($x)>]", "@G", ")"], ["($", "@G", "add", "@H", "1", "@H", "2", "@G", ")"], ["($", "@G", "\\x.", "@G", "\\y.", "@G", "[<($x)($y)>]", "@H", "3", "@H", "4", "@G", ")"],
         ["($", "@G", "(", "@G", "1", "@H", "2", "@G", ")", "@G", "\\x.", "@G", "[($x);]", "@G", ")"], ["($", "@G", "7", "@G", "?", "@G", "0", "@G", "|", "@G", "8", "@G", ")"], ["($macro", "@H", "m", "@G", "(", "@G", "p", "@H", "q", "@G", ")", "<($p)>)($m 1 2)"],
         ["($set", "@H", "(", "@G", "u", "@H", "v", "@G", ")", "@G", "(1 2)", "@G", ")($u)($v)"], ["($emit", "@H", "l", "@H", "cdr", "@G", ")"], ["($", "@G", "f", "@G", "\\b", "@H", "(`x)", "@G", "\\a", "@H", "(`y)", "@G", ")"], ["($", "@G", "*", "(1)", "@G", ")" if 0 else "5", "@G", ")"],
         ["($", "@G", "[a]", "@G", "\\code" if 0 else "", ")"], ["($import", "@H", "a", "@G", ")"], ["($$", "@G", "(`w)", "@G", ")"], ["($", "@G", "f", "@H", "1", "@G", "*", "(2)", "@G", ")"], ["($let", "@H", "(", "@G", "a", "@H", "b", "@G", ")", "@G", "(1 2)", "@G", "{", "a + b }", "@G", ")"]]
add("C23", "optional spacing", 1, 2, law="equiv", trim=False, files=FL, start=["($set f \\a.\\b.[<($a)|($b)>])($set l (3 4))", "@S"],
    rules={"S": [[0] + f for f in FORMS], "G": [[0, ""]] + [[1, (x, "")] for x in GAPS if x], "H": [[0, " "]] + [[1, (x, " ")] for x in SGAP]})
CLOSE = [("($set x 5", ")", "\\set)"), ("($let x 5 x", ")", "\\let)"), ("($f 1 2", ")", "\\f)"), ("($import a", ")", "\\import)"), ("($emit l", ")", "\\emit)"), ("($ f 1 2", ")", "\\f)")]
add("C23", "closing marks", 1, 2, law="equiv", trim=False, files=FL, start=["($set f \\a.\\b.[<($a)|($b)>])($set l (3 4))", "@S", "{($x)}"], rules={"S": [[0, (a + g + c[:-1] + h + c[-1], a + b)] for a, b, c in CLOSE for g in ("", " ", "\n", " \n\t") for h in ("", " ", "\n")]})
OPENS = ["($add 1 2", "($set x 5", "($let x 5 x", "($macro m (p) ($p)", "($ [a", "($ (1 2", "($ {1", "(`q", "($quote q", "($! c", "($code a", "($ ,,a", "($ ]\n a", "($ \\x.[a", "($ 1 ? 0 | 2", "($emit l", "($import a", "($$ (`a)", "(${} 1", "($ \"s\"", "($ \\a:5.[($a)", "($ ($ 1)"]
add("C23", "missing ends", 1, 2, law="refused", trim=False, files=FL, start=["@P", "@S", "@T"], rules={"P": [[0, x] for x in ["", "a\n", "($set l (1 2))"]], "S": [[0, x] for x in OPENS], "T": [[0, x] for x in ["", "\n", " ", " z", "]", "\n\n b"][:3]]})
SHAPES = ["($set)", "($set x)", "($set 5 1)", "($set \"x\" 1)", "($set (1) 1)", "($set x 1 2)", "($set x 1 \\y)", "($let)", "($let x)", "($let x 1)", "($let 5 1 1)", "($let x 1 2 3)", "($let x 1 2 \\set)", "($macro)", "($macro m)", "($macro 5 () a)", "($macro m (1) a)", "($macro m p a)", "($macro (m) () a)", "($emit)", "($emit 5)", "($emit (1))",
          "($emit l cdr 1)", "($import)", "($import 5)", "($import a b)", "($import zz)", "($ \\x)", "($ \\x 5)", "($ \\5.1)", "($ \\.1)", "($ 1 2 ? )", "($ ? 1)", "($ 1 | 2)", "($ 1 ? 2 |)", "($ ])", "($ })", "($ |)", "($ ,)", "($ ;;)", "($ [a}", "($ (a])", "($ {a))", "($ 1 ])", "($f 1 \\g)", "($f \\a)", "($f \\ 1)", "($ . )", "($ \\x..5)", "($ \\x:.5)", "($ *)",
          "($ &)", "($ &5)", "($ 'a)", "($ \"a)", "($ ::)", "($ a::)", "($ 5x)", "(${})", "(${} )", "($$)", "($ $)", "($ @)", "($ #)", "($ %)", "($ ~)", "($ a:5)", "($ ^)", "($ <a>)", "($ a,b)", "($add 1, 2)", "($ \\...)", "($ ...)", "($set x ? 1)", "($ ()", "($ [)", "($ ())", "($ (,))", "($())", "($[])", "($)", "($ )", "($\n)", "($ ([)])", "($ 1 ? 2 ? 3)", "($ \\x.\\y)",
          "($ \\(a b).[x] 1)", "($ (1 2)(3))", "($\\f)", "($add\\add)", "($add 1 2\\sub)", "($ 1\\1)", "($ [a]\\b)", "($! a ) b)", "($! (a)", "(`(a)", "(`a))", "($code)", "($code )", "($quote)", "($quote )", "($ [[])", "($ []])", "($ [a] [b])", "($ ,,)", "($ ,,;;)", "($ ],)", "($a-)", "($-a)", "($a--b)", "($_)", "($__)", "($a.b)", "($é)", "($ é)", "($A1)", "($1A)"]
add("C23", "shapes", 2, 3, law="none", trim=False, files=FL, start=["($set f \\a.\\b.[<($a)|($b)>])($set l (3 4))", "@W", "!"], rules={"W": [[0, "@S"], [1, "($ [", "@S", "])"], [1, "($ (", "@S", ") \\e.[($e)])"], [1, "(", "@S", ")"], [1, "@S", "@R"]], "S": [[0, x] for x in SHAPES], "R": ["\n", "]", ")", "($ 1)", "\\"]})
TOK = ["($", ")", "a", "[", "]", " ", "5", "\\x.", "(", "?", "|", "{", "}", "(`", ",,", ";;", "\\a", "\n", "\"", "&x", "*", "($set ", "($! ", "::", "."]
add("C23", "token sequences", 3, 4, law="none", trim=False, start=["@S"], rules={"S": [[1, "($", "@Q"], [1, "@X", "@Q"]], "Q": [[0, ""], [1, "@X", "@Q"]], "X": [[0, x] for x in TOK]})

# ---- C24: Python sources ----
HEADS = ["", "#!/usr/bin/python\n", "# coding: yupp\n", "# -*- coding:yupp.utf8 -*-\n", "#!x\n# vim: coding=yupp.latin-1\n", "# coding: utf8\n", "\n# coding: yupp\n", " # coding=YUPP\n", "x = 1\n# coding: yupp\n", "# coding: yupp.", "#\n#\n# coding: yupp\n", "# coding: yuppx\n", "# coding:\tyupp.cp1251 ($a)\n", "# encoding=yupp\r\n", "#", "# coding: yupp", "# ($ 1)\n", "#c\n\n# coding: yupp\n"]
PYT = ["a", "'x'", "\"($ 1)\"", "'''t\n($ 2)'''", "\"\"\"($a)\"\"\"", "r'\\'", "# ($ 1)\n", "#'\n", "($ 3)", "($set v 1)", "\n", "\n    ", "'", "u'($v)'", "\"\\\"($ 1)\"", "b'x'", "//", "/*", "'a\\\n($ 1)'", "''''''", "\"'\"", "f(1)", "($ \"s\")", "\t", "R\"($ 4)\"", "rb'''\n'''", "'\n", "(`#)", "($ 'p' 1)"]
for skip in (0, 2, 3, 1):
    add("C24", "texts, skipping %d" % skip, 3 if skip == 0 else 2, 4 if skip == 0 else 3, law="none", trim=skip != 0, skip=skip, name="t.py.yu" if skip != 3 else "t.yu-py", start=["@S"], rules={"S": ["", [1, "@X", "@S"]], "X": PYT})
QT = [(q, o) for q, o in (("'", '"'), ('"', "'"))]
for name, skip in (("t.py.yu", 0), ("t.py", 0), ("t.c.yu", 2)):
    add("C24", "strings of several lines, %s" % name, 3 if skip == 0 and name == "t.py.yu" else 2, 4 if name == "t.py.yu" else 3, law="none", trim=False, name=name, skip=skip, start=["@S"],
        rules={"S": [[0, "x = "] + [r, q * 3, "@I%s" % k, q * 3, "@T"] for r in ("", "r", "rb") for k, (q, o) in enumerate(QT)], "T": [[0, "; y = ($ 3)\n"], [1, "\n($ 'a')"]],
               **{"I%s" % k: ["", [1, "@X%s" % k, "@I%s" % k]] for k in (0, 1)}, **{"X%s" % k: [o, "($ 1)", "\n", q + "a", o * 3, "\\" + q, "#", "\\\n", "a"] for k, (q, o) in enumerate(QT)}})
add("C24", "headers", 2, 3, law="none", trim=True, name="t.py.yu", start=["@H", "@S"], rules={"H": [[0, x] for x in HEADS], "S": [[0, ""], [1, "@X", "@S"]], "X": PYT[:12] + ["# coding: yupp\n"]})
add("C24", "other outputs", 2, 3, law="none", trim=False, name="t.pyw.yu", start=["@H", "@S"], rules={"H": [[0, x] for x in HEADS], "S": [[0, ""], [1, "@X", "@S"]], "X": PYT[:12]})
PYF = [x for x in ["a = 'b'\n", "if x:\n    y()\n", "# c\n", "s = \"($ 1)\"\n", "\n", "    pass\n"]]
add("C24", "constructs in text", 2, 3, law="denotes", trim=False, name="t.py.yu", start=["@S"], rules={"S": [[0, "@X"], [1, "@X", "@S"]], "X": [[0, x] for x in [("($ 3)", "3"), ("(`q)", "q"), ("($! c)", ""), ("($ [a\n])", "a\n"), "f(1)", "x = [1]\n", "\n    y", "'s'", "# c\n", ("# ($ 1)\n", "# 1\n"), "#'\n", ("($set v 2)", ""), "{}", "\"d\"", "r\"\\d\"", "'''d\n'''"]]})


import props_lang
props_lang.PRE12, props_lang.DEF12, props_lang.FL10 = PRE, DEF12, FL
