"""Grammars and generator profiles of the language properties (see grammar.py for the notation).

GRAMMARS[id] = [(name, grammar, quick budget, thorough budget)]
"""
import itertools

G = {}


def add(pid, label, quick, thorough, **g):
    G.setdefault(pid, []).append((label, g, quick, thorough))


# ---- C01: plain text ----
PIECES = ["a", "\u00e9", "[", "]", "(;", ")", "{", "\\", "\n", " ", "//", "*/", "#", ",,", ";;", "`", "$", "1:", "\t", "?|", "&", "\\\n"]
LITERALS = ["\"a\"", "\"($a)\"", "'($'", "\"\\\"(\"", "''", "\"($set \"", "u8'x'", "\"it's\""]
ERASED = [("(`q)", "q"), ("(`)", ""), ("(`($a))", "($a)"), ("($! c)", ""), ("($!)", ""), ("($! (\"$a))", ""), ("($set v 1)", ""), ("($macro m (p) z)", ""), ("($ 1)", "1"), ("($ \"s\")", "\"s\""), ("($quote k(1))", " k(1)"), ("($ [t])", "t")]
for trim in (True, False):
    add("C01", "pieces%d" % trim, 3 if trim else 2, 4 if trim else 3, law="denotes", trim=False, start="@S", name="t.c.yu" if trim else "t.txt",
        rules={"S": [[0, "x", "@P"]], "P": ["", [1, "@X", "@P"]], "X": PIECES + LITERALS + ERASED})
SKIPC = ["//($a)\n", "/*($a*/", "/*\n($\n*/", "/**/", "//\n", "/*)*/", "/*/($*/", "/***/", "/*($//*/", "/ ", "a", "\n", "'/*'", "\"//\"", ("($ 1)", "1"), ("(`/*)", "/*"), ("(`//)", "//"), "[", "* ", "/*\"*/", "//'\n", "#"]
add("C01", "skip C comments", 3, 4, law="denotes", trim=False, skip=1, start="@S", rules={"S": [[0, "x", "@P"]], "P": ["", [1, "@X", "@P"]], "X": SKIPC})
SKIPPY = ["#($a)\n", "# ($\n", "#\n", "a", "\n", "'#'", ("($ 1)", "1"), ("(`#)", "#"), "[", "/*", "// ", "#\"\n"]
add("C01", "skip Python comments", 3, 4, law="denotes", trim=False, skip=2, start="@S", rules={"S": [[0, "x", "@P"]], "P": ["", [1, "@X", "@P"]], "X": SKIPPY})

# ---- C02: notations of a code fragment ----
NOT = [[0, ("[", "($code"), "@T", ("]", ")")], [0, ("]\n", "["), "@T", ("\n[", "]")], [0, (",,", "["), "@T", (";;", "]")], [0, ("] \n", "($code"), "@T", ("\n  [", ")")], [0, (",,", "]\n"), "@T", (";;", "\n[")]]
CTX = ["($ @)", "($set f \\x.@)($f 1)($f (`a))", "($set x 7)($ (`q) ? 1 | @)", "($ (1 @ 2) \\e.[<($e)>])", "($len @)", "($let x 5 @)", "($ \\p.\\q:@.[($p)($q)] 1)", "($ @ ? @)", "($set x (`z))($upper @)", "($set s @)($ s)<($s)>", "($1 (0 @))", "($ \\m.[($m)] \\m @)"]


def ctx(c):
    q = c.split("@")
    out = [1, q[0]]
    for p in q[1:]:
        out += ["@C", p]
    return out


add("C02", "notations", 3, 4, law="equiv", trim=False, start="@S",
    rules={"S": [[0, "@K"]], "K": [ctx(c) for c in CTX], "C": NOT,
           "T": [[1, "@I"], [1, "@I", "@T"]], "I": ["a", " b ", "($x)", "()", "[]", "(1 [2])", "\nz", "\\z", [1, "($ ", "@C", ")"], ("(`)", "")]})
add("C02", "last argument", 2, 3, law="equiv", trim=False, start="@S",
    rules={"S": [["($set f \\x.\\y.[<($x)|($y)>])($f ", (",,", "["), "@T", ("", "]"), (",,", "["), "@T", ("", "]"), ")"],
                 ["($set f \\x.\\y.[<($x)|($y)>])($f ", (",,", "["), "@T", ("", "]"), (",,", "["), "@T", ("\\f)", "])")],
                 ["($set f \\x.\\y.[<($x)|($y)>])($f ", ("]\n", "["), "@T", ("\n[", "]"), " (`k))"],
                 ["($set f \\x.\\y.[<($x)|($y)>])($f (`k) ", ("]", "["), "@T", ("[", "]"), ")"],
                 ["($set f \\x.[<($x)>])($f ", ("]", "["), "@T", ("[ )", "])")],
                 ["($set f \\x.[<($x)>])($f ", ("]", "["), "@T", ("[\\f)", "])")],
                 ["($set f \\x.[<($x)>])($f", (",,", " ["), "@T", (")", "])")],
                 ["($set f \\x.[<($x)>])($f", (",,", " ["), "@T", ("\\f )", "])")],
                 ["($set f \\x.\\y.[<($x)|($y)>])($f", (",,", " ["), "@T", (",,", "] ["), "@T", (")", "])")]],
           "T": [[1, "@I"], [1, "@I", "@T"]], "I": ["a", " b ", "($ 1)", "(c)", "[d]", "; ", ", ", "z\ny", "($ [e])", "(\\f)", "(b \\f )", "([\\f])"]})

# ---- C03: scoping, as renaming of bound names ----
# E0..E2: one, two, three names bound; the left side calls every name x, the right side x0, x1, x2; y is free in the program
def scoping(binders):
    rules = {}
    for d in range(3):
        x = ("x", "x%d" % d)
        nx = ("x", "x%d" % (d + 1))
        alts = [[0, "[<($", x, ")>]"], [0, "($ ", x, ")"], [0, "[($", x, ")($y)]"]]
        if d < 2:
            for b in binders:
                q = [1]
                for p in b:
                    q.append(x if p == "x" else nx if p == "X" else "@E%d" % (d + 1) if p == "B" else "@E%d" % d if p == "V" else "@L" if p == "L" else p)
                alts.append(q)
        rules["E%d" % d] = alts
    rules["L"] = [[0, "5"], [0, "(`k)"], [0, "[($y)]"], [0, "(y 3)"]]
    return rules


BIND = [["($let ", "X", " ", "L", " ", "B", ")"], ["($ \\", "X", ".", "B", " ", "V", ")"], ["($ (1 ", "V", ") \\", "X", ".", "B", ")"],
        ["($ \\", "X", ":", "V", ".", "B", ")"], ["($ [($set ", "X", " ", "L", ")($ ", "B", ")])"], ["($let (", "X", " w) (", "L", " 4) ", "B", ")"],
        ["($ \\", "X", ".\\w.", "B", " \\w 9 ", "V", ")"], ["($let ", "X", " ", "L", " ($let w 5 ", "B", "))"]]
add("C03", "shadowing is renaming", 2, 3, law="equiv", trim=False, start=["($set ", ("x", "x0"), " 7)($set y (`Y))", "@E0", "{", "($", ("x", "x0"), ")"],
    rules=dict(scoping(BIND), E0=[[0, "($ ", "@F0", ")"]], F0=scoping(BIND)["E0"]))
# a closure keeps the names of its definition place: the binder at the place of use is called x or w
add("C03", "closures", 3, 4, law="equiv", trim=False, start=["($set x 7)", "@D", "@U"],
    rules={"D": ["($set f \\a.[($x)($a)])", "($set f \\a.{ x + a })", "($set f ($let x 3 \\a.[($x)($a)]))", "($set f ($ \\x.\\a.[($x)($a)] 4))", "($set f \\x.[($x)])", "($set f \\a:x.[($x)($a)])",
                 "($set f \\a.($let x 2 [($x)($a)]))", "($set g \\b.[($x)($b)])($set f \\a.($g a))", "($set f \\a.(x a))"],
           "U": ["($f 1)", [1, "($let ", ("x", "w"), " 5 ", "@A", ")"], [1, "($ \\", ("x", "w"), ".", "@A", " 6)"], [1, "($ (8 9) \\", ("x", "w"), ".", "@A", ")"], [1, "($ [($set ", ("x", "w"), " 5)", "@A", "])"],
                 [1, "<", "@U", ">"]],
           "A": ["($f 1)", [1, "($let ", ("x", "v"), " 0 ", "@A", ")"], "[($f 1)]", "($ f 2)"]})
add("C03", "redefinition", 3, 4, law="none", start="@S", rules={
    "S": [[1, "@X"], [1, "@X", "@S"]], "X": ["($set x 1)", "($set x 2)", "($set x \\a.[q($a)])", "($set y x)", "($set y ($x))", "($x)", "($y)", "($let x 3 ($x))", "[($set x 4)]", "($ [($set x 5)($x)])", "($set f \\a.[($x)($a)])", "($f 6)"]})

# ---- C04: arguments ----
def arrangements(names, vals):
    """every way to give the arguments: which are named, where the named ones stand"""
    n = len(names)
    out = set()
    for mask in range(1 << n):
        pos = [k for k in range(n) if not mask >> k & 1]
        named = [k for k in range(n) if mask >> k & 1]
        for perm in itertools.permutations(named):
            # choose slots for the named ones among the positional
            for slots in itertools.combinations_with_replacement(range(len(pos) + 1), len(perm)):
                seq = []
                j = 0
                for s in range(len(pos) + 1):
                    while j < len(perm) and slots[j] == s:
                        seq.append("\\%s %s" % (names[perm[j]], vals[perm[j]]))
                        j += 1
                    if s < len(pos):
                        seq.append(vals[pos[s]])
                out.add(" ".join(seq))
    return sorted(out)


F3 = "\\a.\\b.\\c.[<($a)|($b)|($c)>]"
VALS = ["1", "(`B)", "\"C\"", "(x y)", "[t]", "{1+1}", "a"]
alts = [[0, ("($f " + s + ")", "($f %1 %2 %3)")] for s in arrangements("abc", ["%1", "%2", "%3"])]
alts += [[0, (s, "($f %1 %2 %3)")] for s in
         ["($ ($f %1) %2 %3)", "($ ($f %1 %2) %3)", "($ ($ ($f %1) %2) %3)", "($f *(%1 %2 %3))", "($f %1 *(%2 %3))", "($f *(%1) %2 %3)", "($f *() %1 %2 *(%3))", "($f %1 *(*(%2) %3))",
          "($ ($f \\b %2) %1 %3)", "($ ($f \\c %3 %1) %2)", "($let g ($f \\a %1) ($g %2 %3))", "($ f %1 %2 %3)", "($ " + F3 + " %1 %2 %3)", "($ \\a.\\b:%2.\\c:%3.[<($a)|($b)|($c)>] %1)",
          "($ \\a:%1.\\b:%2.\\c:%3.[<($a)|($b)|($c)>])", "($ \\a:0.\\b:%2.\\c.[<($a)|($b)|($c)>] %1 \\c %3)", "($f %1 %2 %3 \\f)", "($ \\c.\\a.\\b.[<($a)|($b)|($c)>] %3 %1 %2)", "($ ($ \\a.\\b.\\c.[<($a)|($b)|($c)>]) %1 %2 %3)",
          "($set h \\k.($f k))($ ($h %1) %2 %3)", "($let l (%2 %3) ($f %1 *l))", "($ \\a.\\...[<($a)|($0 __va_args__)|($1 __va_args__)>] %1 %2 %3)", "($ \\...($f *__va_args__) %1 %2 %3)",
          "($ \\a.\\b:9.\\...[<($a)|($b)|($__va_args__)>] %1 %2 %3)"]]
add("C04", "arrangements", 0, 0, law="equiv", trim=False, start=["($set f " + F3 + ")", "@V!1", "@V!2", "@V!3", "@S"], rules={"V": VALS[:2], "S": alts})
add("C04", "arrangements of values", 0, 0, law="equiv", trim=False, start=["($set f " + F3 + ")", "@V!1", "@W!2", "@W!3", "@S"], rules={"V": ["1"], "W": VALS[2:], "S": alts[::5] + alts[-24:]})
PAR = ["\\p.", "\\q:3.", "\\r..\\s.", "\\...", "\\p:(`d).", "\\q."]
add("C04", "signatures and calls", 4, 5, law="none", start=["($ ", "@P", "[<($p)|($q)|($__va_args__)>]", "@A", ")"],
    rules={"P": [[0, "\\p."], [1, "@X", "@P"], [1, "@X"]], "X": PAR, "A": ["", [1, " ", "@Y", "@A"]], "Y": ["1", "(`b)", "\\p 5", "\\q 6", "\\z 7", "*(8 9)", "*()"]})
add("C04", "late-bound parameters", 3, 4, law="none", start=["($ ", "@P", " ", "@A", ")"],
    rules={"P": ["\\x..\\y.\\f.($f y)", "\\f.\\x.($f x)", "\\x..\\f.\\y.[($f)($y)]", "\\(($let z (u v) z)).[($u)]", "\\x..\\f.[($f \\x 5)]", "\\x..\\y..\\f.[($f \\y 2 \\x 5)]", "\\x..\\f.[($f \\x [<($f \\x 2)>])]"],
           "A": ["", [1, "@Y", " ", "@A"]], "Y": ["1", "[($ &x)]", "($upper &x)", "&x", "\\k.[($k)($ &x)]", "($ &x 3)", "[($ &x)($ &y)]", "[($ &w)]", "($add &x 1)"]})

# ---- C05: lists ----
ELS = [("1 2 3", "123"), ("(`a)", "1"), ("", ""), ("1 (`b) \"c\"", "3"), ("5 *(6 7)", "3"), ("*()", "0"), ("(1 2) (3)", "2"), ("*(1 *(2)) 3", "3"), ("a b", "2")]
add("C05", "loops are unrolled", 1, 2, law="equiv", trim=False, start=["@V!1", "@V!2", "@V!3", "@B!4", "@S"],
    rules={"V": ["1", "(`b)", "(5 6)"], "B": ["[<($x)>]", "($ x)", "{ x }", "[($x)($x) ]", "($0 x)", "($let y x [($y),])", "($ 1 ? x | 2)", "(x)"],
           "S": [[0, (a, b)] for a, b in [
               ("($ (%1 %2 %3) \\x.%4)", "($ \\x.%4 %1)($ \\x.%4 %2)($ \\x.%4 %3)"), ("($ (%1) \\x.%4)", "($ \\x.%4 %1)"), ("($ () \\x.%4)", ""),
               ("($ (%1 *(%2 %3)) \\x.%4)", "($ \\x.%4 %1)($ \\x.%4 %2)($ \\x.%4 %3)"), ("($set l (%1 %2))($set g \\x.%4)($ l g)", "($set g \\x.%4)($g %1)($g %2)"),
               ("($ (%1 %2) \\x.%4 \\z.[<($z)>])", "<($ \\x.%4 %1)><($ \\x.%4 %2)>"), ("($ ($reversed (%1 %2)) \\x.%4)", "($ \\x.%4 %2)($ \\x.%4 %1)"),
               ("($ (%1 %2) \\w.($ (%3) \\x.%4))", "($ \\x.%4 %3)($ \\x.%4 %3)"), ("($ ($ (%1 %2) \\y.(y y)) \\x.%4)", "($ ((%1 %1) (%2 %2)) \\x.%4)"),
               ("($let x 9 ($ (%1 %2) \\x.%4))", "($ (%1 %2) \\x.%4)")]]})
add("C05", "subscripts", 0, 0, law="equiv", trim=False, start=["@V!1", "@V!2", "@V!3", "@S"],
    rules={"V": ["1", "(`b)", "\"s\"", "[t]"],
           "S": [[0, (a, b)] for a, b in
                 [("($%d (%%1 %%2 %%3))" % k, "($ %%%d)" % (k + 1)) for k in range(3)] + [("($%d (%%1 %%2 %%3))" % -k, "($ %%%d)" % (4 - k)) for k in range(1, 4)]
                 + [("($%d %%1 %%2 %%3)" % k, "($ %%%d)" % (k + 1)) for k in range(3)] + [("($%d %%1 %%2 %%3)" % -k, "($ %%%d)" % (4 - k)) for k in range(1, 4)]
                 + [("($set i 1)($i (%1 %2 %3))", "($ %2)"), ("($set l (%1 %2))($set (u v) l)($u)($v)", "($ %1)($ %2)"), ("($let (u v) (%1 %2) [($v)($u)])", "($ [($ %2)($ %1)])"),
                    ("($set (u v) %1)($u)($v)", "($ %1)($ %1)"), ("($set l (%1 %2 %3))($emit l)($emit l)($emit l)", "($ %1)($ %2)($ %3)"), ("($set l (%1 %2 %3))($emit l cdr)($emit l)", "($ %1)($ %3)"),
                    ("($ (%1 (%2 %3)) \\x.[($x)])", "($ %1)($ (%2 %3))"), ("($0 ($1 (%1 (%2 %3))))", "($ %2)"), ("($let l (%1 %2 %3) ($2 l))", "($ %3)")]]})
add("C05", "list programs", 3, 4, law="none", start="@S", rules={
    "S": [[1, "@X"], [1, "@X", "@S"]],
    "X": ["($set l (1 2 3))", "($set l ())", "($set l (a (b c) \"d\"))", "($set (u v w) l)", "($set (u v) 5)", "($u)($v)", "($emit l)", "($emit l cdr)", "($0 l)", "($-1 l)", "($3 l)", "($ l \\x.[<($x)>])", "($ l \\x.($1 x))",
          "($set m l)", "($emit m)", "($m)", "($len l)", "($ (*l 9))", "($set i 0)($emit i inc)($emit i)", "($ (l l) \\x.($ x \\y.[($y);]))", "($l 0)"]})

# ---- C06: conditionals and recursion ----
TRUE = ["1", "-1", "(`a)", "\"\"", "[a]", "(1)", "(0)", "(())", "(`0)", "{ 1 > 0 }", "({2})", "[0]", "zz", "($eq 1 1)", "($ [x])", "[ ]", "' '", "0.5", "(`())", "7"]
FALSE = ["0", "()", "[]", "(`)", "{ 1 < 0 }", "($eq 1 2)", "0x0", "($list)", "00", "($ [])", "-0", "($strip (` ))", "0.0", "{ 0 }", "($ 0)", "(*())"]
DEAD = ["($undefined-thing 1 2)", "($car)", "($ ($add 1))", "{ 1 / 0 }", "($f 1 2 3)", "[($set x 9)]", "($5 (1))"]
add("C06", "choice", 2, 3, law="equiv", trim=False, start=["($set x 4)", "@W", "{($x)}"],
    rules={"W": [["($ ", "@E", ")"], ["($let y ", "@E", " [($y)])"], ["($ (", "@E", ") \\z.[($z)])"], ["($ \\a.[<($a)>] ", "@E", ")"], ["($ [a ($ ", "@E", ")])"]],
           "E":
           [[0, "@V!1", "@D!2", "@T!3", ("%1 ? %3 | %2", "%1")], [0, "@V!1", "@D!2", "@F!3", ("%2 ? %3 | %1", "%1")], [0, "@V!1", "@T!3", ("%1 ? %3", "%1")],
            [0, "@V!1", "@D!2", "@F!3", "@F!4", ("%2 ? %3 | %2 ? %4 | %1", "%1")], [0, "@V!1", "@D!2", "@F!3", "@T!4", ("%2 ? %3 | %1 ? %4 | %2", "%1")]],
           "V": ["(`v)", "[w($x)]"], "D": DEAD[1:4], "T": TRUE, "F": FALSE})
add("C06", "no alternative", 2, 3, law="equiv", trim=False, start=["@V!1", "@F!3", "@W"],
    rules={"W": [[0, (a, b)] for a, b in [("<($ %1 ? %3)>", "<>"), ("($ (a ($ %1 ? %3) b) \\x.[($x);])", "($ (a b) \\x.[($x);])"), ("($ [a($ %1 ? %3)b])", "ab"), ("($len (1 (%1 ? %3) 2))", "($len (1 () 2))"), ("($ %1 ? %3 | (`e))", "e"), ("($let y 3 [<($ ($y) ? %3)>])", "<>")]],
           "V": ["(`v)", "[w]", "7", "(1 2)", "($add 1)", "($nothing 5)"], "F": FALSE})


# the condition is known only when the function it stands in is applied
LATER = ["($set f \\x.($ %1 ? x | %2))($f %3)", "($ \\k.\\x.($ %1 ? x | %2) 1 %3)", "($set f \\x.\\n.($ %1 ? x | %2))($ ($f %3) 0)", "($set f \\n.\\x.($ %1 ? x | %2))($ ($f 0) %3)", "($ (%3) \\x.($ %1 ? x | %2))", "($ \\x:%3.($ %1 ? x | %2))",
         "($ \\a.($ \\x.($ a ? x | %2) %3) %1)", "($ \\x.\\a.($ a ? x | %2) %3 %1)", "($set g \\x.($ %1 ? x | %2))($set f \\y.($g y))($f %3)", "($let y %3 ($ \\x.($ %1 ? y | %2) 0))", "($ \\x.[($ %1 ? x | %2)] %3)", "($ \\x.($ ($ %1 ? x | %2) ? x | ($ %1 ? x | %2)) %3)",
         "($ \\...($ %1 ? ($0 __va_args__) | %2) %3)", "($set f \\x.\\y.($ %1 ? y | ($ %2 ? x | %1)))($f 1 %3)", "($set f \\x.\\y.($ %1 ? x | %2))($f \\y 5 \\x %3)", "($ \\f.($f %3) \\x.($ %1 ? x | %2))", "($set f ($ \\a.\\x.($ a ? x | %2) %1))($f %3)"]
for lab, conds, res in (("true", TRUE, "%1"), ("false", FALSE, "%2")):
    add("C06", "conditions bound later, " + lab, 2, 2, law="equiv", trim=False, start=["@V!1", "@U!2", "@C!3", "@S"],
        rules={"V": [[0, "(`v)"], [0, "[t]"]], "U": [[0, "[w]"], [0, "2"]], "C": [[0, x] for x in conds if x not in ("zz", "($ [x])")], "S": [[0, (x, "($ %s)" % res)] for x in LATER]})
add("C06", "conditions of late-bound names", 3, 3, law="none", keep=True, start=["($ \\x..\\f.", "@P", " ", "@F", ")"],
    rules={"P": [[0, "[($f \\x ", "@C", ")]"], [0, "($f \\x ", "@C", ")"], [0, "($ [v] ? ($f \\x ", "@C", ") | [z])"]], "C": [[0, x] for x in TRUE[:12] + FALSE[:13]],
           "F": [[1, "($ [v] ? &x | [w])"], [1, "[($ [v] ? &x | [w])]"], [1, "($ ($upper &x) ? &x | ($inc &x))"], [1, "($ 1 ? ($not &x) | 2)"]]})


def rec():
    out = []

    def fact(n):
        return 1 if n == 0 else n * fact(n - 1)

    def fib(n):
        return n if n < 2 else fib(n - 1) + fib(n - 2)
    for n in range(8):
        out.append(("($set fact \\n.($ 1 ? { n == 0 } | { ($fact { n - 1 }) * n }))($fact %d)" % n, str(fact(n))))
        out.append(("($set fact \\n.($ 1 ? ($eq n 0) | ($mul n ($fact ($dec n)))))($fact %d)" % n, str(fact(n))))
        out.append(("($set fib \\n.($ n ? { n < 2 } | { ($fib { n - 1 }) + ($fib { n - 2 }) }))($fib %d)" % n, str(fib(n))))
        l = " ".join(str(k) for k in range(n))
        out.append(("($set size \\l.($ ($inc ($size ($cdr l))) ? l | 0))($size (%s))" % l, str(n)))
        out.append(("($set all \\l.($ [<($0 ($car l))>($all ($cdr l))] ? l))($all (%s))" % l, "".join("<%d>" % k for k in range(n))))
        out.append(("($set rev \\l.\\r:().($ ($rev ($cdr l) ($concat ($car l) r)) ? l | r))($ ($rev (%s)) \\x.[($x);])" % l, "".join("%d;" % k for k in reversed(range(n)))))
        out.append(("($set even \\n.($ 1 ? ($eq n 0) | ($odd ($dec n))))($set odd \\n.($ 0 ? ($eq n 0) | ($even ($dec n))))($even %d)" % n, str(int(n % 2 == 0))))
        out.append(("($set rep \\n.\\t.($ [($t)($rep ($dec n) t)] ? n))($rep %d [a,])" % n, "a," * n))
        out.append(("($set down \\n.($ [($n)] ? ($lt n 1) | [($n)($down ($dec n))]))($down %d)" % n, "".join(str(k) for k in range(n, -1, -1))))
    return out


add("C06", "recursion", 0, 0, law="denotes", trim=False, start="@S", rules={"S": [[0, x] for x in rec()]})
add("C06", "condition values", 3, 3, law="none", start=["($set x 4)($ ", "@V", " ? ", "@C", "@A", ")"],
    rules={"V": ["1", "(1)", "[a]"], "C": TRUE[:10] + FALSE + ["x", "q", "($x)", "\\x.x", "($f &y)", "&k"], "A": ["", [1, " | ", "@V"], [1, "|", "@V", "?", "@C"], " |"]})

# ---- C07: macros, string substitution and evaluation ----
BODY = [("($p)", "%1"), "a", " ", "(k)", "[", "]", "($ 1)", ("($ [($p)])", "($ [%1])"), "($ [b])", "\n", ("($set z (`($p)))($z)", "($set z (`%1))($z)"), ("\"($p)\"", "\"%1\""), ("($q)", "%2")]
MARG = [("(`A)", "A"), ("1", "1"), ("(`x y)", "x y"), ("(`)", ""), ("\"s\"", "\"s\""), ("[t]", "t"), ("(`($ 5))", "($ 5)"), ("(`($w))", "($w)"), ("c", "c")]
# the argument is written in the call (left) and its text in the body (right): pairs (as written, as text)
for k, (w, t) in enumerate(MARG):
    body = [x if isinstance(x, str) else (x[0], x[1].replace("%1", t).replace("%2", "Q")) for x in BODY]
    add("C07", "macro with %s" % w, 2, 3, law="equiv", trim=False, start=
        ["($set w (`W))", ("($macro m (p q)", ""), "@B", (")($m %s (`Q))" % w, "")], rules={"B": [[1, "@I"], [1, "@I", "@B"]], "I": body})
SUBA = [("1", "1"), ("(`b)", "b"), ("\"s\"", "s"), ("[t]", "t"), ("0x10", "16"), ("{2*3}", "6"), ("(`)", "")]
add("C07", "fields of a string", 3, 4, law="none", start=["($ ", "@Q", "@L", ")"],
    rules={"Q": ["\"a($0)b\"", "(`($1)($0))", "'($n)($0)'", "(`x)", "\"($0)($0)\"", "(`($2))", "[($0)]", "(`($m)\n($n))", "\"\\n($0)\"", "(`($ 0)($add 1 2)($0))"], "L": ["", [1, " ", "@X", "@L"]],
           "X": [s for s, _ in SUBA] + ["\\n 5", "\\m (`M)", "\\n (1 2)", "(7 8)"]})
EV = ["add 1 2", "upper \"x\"", "($add 3 4)", "w", "a b", "1", "($ [t])($w)", "($set w 3)($w)", "", "x($! c)y", "(`q)", "($m 2)", "\"s\"", " ", "[b]", "($let w 9 ($w))", ")", "($", "[", "($set v 1)"]
add("C07", "evaluated strings", 2, 3, law="none", start=["($set w 8)($macro m (p)<($p)>)", "@S"],
    rules={"S": [[1, "($$ (`", "@E", "))"], [1, "($$ [", "@E", "])"], [1, "($ ($$ (`", "@E", ")))"], [1, "($let w 5 ($$ (`", "@E", ")))($w)"], [1, "($$ \"", "@E", "\")"], [1, "($set s (`", "@E", "))($$ s)"], [1, "($m (`", "@E", "))"],
                 [1, "($macro k ()", "@E", ")($k)($k)"], [1, "($macro k (w)", "@E", ")($k 1)"], [1, "($upper ($$ (`", "@E", ")))"], [1, "  ($m ]\n", "@E", "\n[ )"], ["($$(`", "@E", "@E", "))"]], "E": EV})
add("C07", "macros of macros", 3, 4, law="none", start="@S", rules={
    "S": [[1, "@X"], [1, "@X", "@S"]],
    "X": ["($macro m (p)<($p)>)", "($macro m (p q)($p)-($q))", "($macro n (p)($m ($p) 1)($p))", "($macro n (p)($set ($p) 5))", "($m (`a))", "($m 1 (`b c))", "($n x)", "($n (`y))($y)", "($x)", "($m (`($x)))", "($let x 2 ($m (`($x))))",
          "($macro k ()k)", "($k)", "($m \\p (`z))", "($m)", "($macro d (id)($set v-($id) (`($id)!)))", "($d U)($v-U)", "($set g \\a.($m a))($g 3)", "($m ,,t)"]})
