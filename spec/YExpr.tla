------------------------------- MODULE YExpr -------------------------------
(* Infix expressions: the part of Python's expression grammar over integers, *)
(* truth values and texts that yupp sources use.                             *)
(* Values: [t |-> "INT", v], [t |-> "BOOL", v], a text [t |-> "str", s], a   *)
(* list [t |-> "LIST", e]; nodes of texts keep their own tag.                *)
(* Results: [ok |-> TRUE, v |-> value] or [ok |-> FALSE, m |-> "py"/"unsup"] *)
EXTENDS YNode, Bitwise, IOUtils

IntV(n) == [t |-> "INT", v |-> n]
BoolV(b) == [t |-> "BOOL", v |-> b]
StrV(s) == [t |-> "str", s |-> s, f |-> "", p |-> 0]
StrTags == {"str", "STR", "ATOM", "PLAIN", "REMARK"}
ListTags == {"LIST", "T"}
IsStr(n) == n.t \in StrTags
IsNum(n) == n.t \in {"INT", "BOOL"}
IsList(n) == n.t \in ListTags
NumOf(n) == IF n.t = "BOOL" THEN (IF n.v THEN 1 ELSE 0) ELSE n.v
VOk(v) == [ok |-> TRUE, v |-> v, m |-> ""]
VErr(m) == [ok |-> FALSE, v |-> NoneN, m |-> m]

(* ---- what Python computes and this specification does not: asked from a table of Python's answers ---- *)
(* a question is <<function, arguments>>; one the table does not hold is printed, and its case is left open *)
OracleTab == JsonDeserialize(IOEnv.ORACLE)
RECURSIVE ArgJ(_), FromJ(_), Askable(_)
ArgJ(n) ==
  CASE n.t = "STR" -> <<"S", n.s>> [] n.t = "ATOM" -> <<"A", n.s>> [] n.t \in StrTags -> <<"s", n.s>>
    [] n.t = "INT" -> <<"i", ToString(n.v)>> [] n.t = "BOOL" -> <<"b", IF n.v THEN "1" ELSE "0">>
    [] n.t = "FLOAT" -> <<"f", n.s>> [] n.t \in ListTags -> <<"l", [k \in 1..Len(n.e) |-> ArgJ(n.e[k])]>>
    [] OTHER -> <<"n", "">>
Askable(n) ==
  CASE n.t \in StrTags -> \A k \in 1..Len(n.s) : SubSeq(n.s, k, k) \in KnownChars /\ OrdTab[SubSeq(n.s, k, k)] < 127
    [] n.t \in ListTags -> \A k \in 1..Len(n.e) : Askable(n.e[k])
    [] OTHER -> n.t \in {"INT", "BOOL", "FLOAT", "None"}
FromJ(a) ==
  CASE a[1] = "S" -> [t |-> "STR", s |-> a[2], f |-> "", p |-> 0] [] a[1] = "A" -> [t |-> "ATOM", s |-> a[2], f |-> "", p |-> 0]
    [] a[1] = "s" -> StrV(a[2]) [] a[1] = "i" -> IntV(a[2]) [] a[1] = "b" -> BoolV(a[2] = 1) [] a[1] = "f" -> [t |-> "FLOAT", s |-> a[2]]
    [] a[1] = "l" -> [t |-> "LIST", e |-> [k \in 1..Len(a[2]) |-> FromJ(a[2][k])]] [] OTHER -> NoneN
Ask(fn, q) ==
  IF ~(\A k \in 1..Len(q) : Askable(q[k])) THEN VErr("unsup")
  ELSE LET key == ToJson(<<fn, [k \in 1..Len(q) |-> ArgJ(q[k])]>>) IN
    IF key \in DOMAIN OracleTab THEN
      LET a == OracleTab[key] IN IF a[1] = "e" THEN VErr("py") ELSE IF a[1] = "u" THEN VErr("unsup") ELSE VOk(FromJ(a))
    ELSE IF PrintT(<<"ASK", key>>) THEN VErr("unsup") ELSE VErr("unsup")
OrAsk(v, fn, q) == IF ~v.ok /\ v.m = "unsup" THEN Ask(fn, q) ELSE v
AbsI(n) == IF n < 0 THEN -n ELSE n
Small(n) == n < 40000 /\ n > -40000
Big(n) == n < 1000000000 /\ n > -1000000000

(* Python's floored division and remainder *)
PyDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
PyMod(a, b) == a - b * PyDiv(a, b)
RECURSIVE PyPow(_, _)
PyPow(a, b) == IF b = 0 THEN 1 ELSE a * PyPow(a, b - 1)
Pow2(n) == PyPow(2, n)

Truthy(n) ==
  CASE n.t = "None" -> FALSE
    [] n.t = "INT" -> n.v # 0
    [] n.t = "BOOL" -> n.v
    [] n.t = "FLOAT" -> IF ~(\E k \in 1..Len(n.s) : SubSeq(n.s, k, k) \in {"e", "E"}) THEN (\E k \in 1..Len(n.s) : SubSeq(n.s, k, k) \notin {"0", ".", "-", "+"})
                         ELSE Ask("truth", <<n>>) = VOk(BoolV(TRUE))
    [] n.t \in StrTags -> n.s # ""
    [] n.t \in ListTags -> n.e # <<>>
    [] OTHER -> TRUE

RECURSIVE ValEq(_, _)
ValEq(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumOf(a) = NumOf(b)
  ELSE IF IsStr(a) /\ IsStr(b) THEN a.s = b.s
  ELSE IF IsList(a) /\ IsList(b) THEN Len(a.e) = Len(b.e) /\ \A k \in 1..Len(a.e) : ValEq(a.e[k], b.e[k])
  ELSE a.t = "None" /\ b.t = "None"
RECURSIVE StrLess(_, _, _)
StrLess(a, b, k) ==
  IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
  ELSE LET x == SubSeq(a, k, k) y == SubSeq(b, k, k) IN
    IF x = y THEN StrLess(a, b, k + 1) ELSE Ord(x) < Ord(y)

(* int arithmetic with the range this specification can represent *)
Bounded(n) == IF Big(n) THEN VOk(IntV(n)) ELSE VErr("unsup")
Arith0(op, x, y) ==
  IF IsNum(x) /\ IsNum(y) THEN
    LET a == NumOf(x) b == NumOf(y) bools == x.t = "BOOL" /\ y.t = "BOOL" IN
    CASE op = "+" -> Bounded(a + b)
      [] op = "-" -> Bounded(a - b)
      [] op = "*" -> IF Small(a) /\ Small(b) THEN Bounded(a * b) ELSE IF a = 0 \/ b = 0 THEN VOk(IntV(0)) ELSE VErr("unsup")
      [] op = "//" -> IF b = 0 THEN VErr("py") ELSE VOk(IntV(PyDiv(a, b)))
      [] op = "%" -> IF b = 0 THEN VErr("py") ELSE VOk(IntV(PyMod(a, b)))
      [] op = "/" -> IF b = 0 THEN VErr("py")
                     ELSE IF PyMod(a, b) = 0 THEN VOk([t |-> "FLOAT", s |-> (IF a = 0 /\ b < 0 THEN "-" ELSE "") \o ToString(PyDiv(a, b)) \o ".0"]) ELSE VErr("unsup")
      [] op = "**" -> IF b < 0 THEN VErr("unsup")
                      ELSE IF a \in {0, 1} THEN VOk(IntV(IF b = 0 THEN 1 ELSE a))
                      ELSE IF b <= 9 /\ AbsI(a) <= 9 THEN VOk(IntV(PyPow(a, b)))
                      ELSE IF a = 2 /\ b < 30 THEN VOk(IntV(Pow2(b))) ELSE VErr("unsup")
      [] op = "<<" -> IF b < 0 THEN VErr("py") ELSE IF b < 14 /\ Small(a) THEN Bounded(a * Pow2(b)) ELSE VErr("unsup")
      [] op = ">>" -> IF b < 0 THEN VErr("py") ELSE IF b < 30 THEN VOk(IntV(a \div Pow2(b))) ELSE VOk(IntV(IF a < 0 THEN -1 ELSE 0))
      [] op \in {"&", "|", "^"} ->
           IF a < 0 \/ b < 0 THEN VErr("unsup")
           ELSE LET r == IF op = "&" THEN a & b ELSE IF op = "|" THEN a | b ELSE a ^^ b IN
                VOk(IF bools THEN BoolV(r # 0) ELSE IntV(r))
      [] OTHER -> VErr("unsup")
  ELSE IF op = "+" /\ IsStr(x) /\ IsStr(y) THEN VOk(StrV(x.s \o y.s))
  ELSE IF op = "+" /\ IsList(x) /\ IsList(y) THEN VOk(List(x.e \o y.e))
  ELSE IF op = "*" /\ IsStr(x) /\ IsNum(y) THEN (IF NumOf(y) > 200 THEN VErr("unsup") ELSE VOk(StrV(IF NumOf(y) <= 0 THEN "" ELSE Repeat(x.s, NumOf(y)))))
  ELSE IF op = "*" /\ IsNum(x) /\ IsStr(y) THEN (IF NumOf(x) > 200 THEN VErr("unsup") ELSE VOk(StrV(IF NumOf(x) <= 0 THEN "" ELSE Repeat(y.s, NumOf(x)))))
  ELSE IF op = "%" /\ IsStr(x) THEN VErr("unsup")
  ELSE IF x.t = "FLOAT" \/ y.t = "FLOAT" \/ (op = "*" /\ (IsList(x) \/ IsList(y))) THEN VErr("unsup")
  ELSE VErr("py")
Arith(op, x, y) == OrAsk(Arith0(op, x, y), op, <<x, y>>)
Compare0(op, x, y) ==
  IF x.t = "FLOAT" \/ y.t = "FLOAT" THEN VErr("unsup")
  ELSE IF op = "==" THEN VOk(BoolV(ValEq(x, y)))
  ELSE IF op = "!=" THEN VOk(BoolV(~ValEq(x, y)))
  ELSE IF IsNum(x) /\ IsNum(y) THEN
    LET a == NumOf(x) b == NumOf(y) IN
    VOk(BoolV(CASE op = "<" -> a < b [] op = ">" -> a > b [] op = "<=" -> a <= b [] op = ">=" -> a >= b))
  ELSE IF IsStr(x) /\ IsStr(y) THEN
    VOk(BoolV(CASE op = "<" -> StrLess(x.s, y.s, 1) [] op = ">" -> StrLess(y.s, x.s, 1)
                [] op = "<=" -> ~StrLess(y.s, x.s, 1) [] op = ">=" -> ~StrLess(x.s, y.s, 1)))
  ELSE IF IsList(x) /\ IsList(y) THEN VErr("unsup")
  ELSE VErr("py")

Compare(op, x, y) == OrAsk(Compare0(op, x, y), op, <<x, y>>)

(* ---- tokens: [k |-> "int"/"name"/"str"/"op"/"end"/"bad", s, v, i] ---- *)
Ops2 == {"//", "**", "<<", ">>", "==", "!=", "<=", ">="}
Ops1 == {"+", "-", "*", "/", "%", "&", "|", "^", "~", "<", ">", "(", ")", ",", "[", "]"}
IdTail == Letters \cup Digits
Tok(c, s, i0) ==
  LET i == Skip(c, i0, SpaceSet) ch == At(c, i) IN
  IF i > Len(c) THEN [k |-> "end", s |-> "", i |-> i]
  ELSE IF ch \in Letters THEN LET e == Skip(c, i, IdTail) IN
    IF At(c, e) \in {"'", "\""} THEN [k |-> "unsup", s |-> "", i |-> i] ELSE [k |-> "name", s |-> SubSeq(s, i, e - 1), i |-> e]
  ELSE IF ch \in Digits THEN
    LET e == Skip(c, i, IdTail \cup {"."}) d == Skip(c, i, Digits) IN
    IF e = d /\ d - i <= 9 /\ (ch # "0" \/ d = i + 1) THEN [k |-> "int", s |-> SubSeq(s, i, e - 1), i |-> e]
    ELSE [k |-> "unsup", s |-> "", i |-> i]
  ELSE IF ch \in {"'", "\""} THEN
    LET e == Find(c, i + 1, {ch, "\\", "\n"}) IN
    IF e > Len(c) \/ c[e] = "\n" THEN [k |-> "bad", s |-> "", i |-> i]
    ELSE IF c[e] = "\\" \/ (e = i + 1 /\ At(c, e + 1) = ch) THEN [k |-> "unsup", s |-> "", i |-> i]
    ELSE [k |-> "str", s |-> SubSeq(s, i + 1, e - 1), i |-> e + 1]
  ELSE IF i < Len(c) /\ SubSeq(s, i, i + 1) \in Ops2 THEN [k |-> "op", s |-> SubSeq(s, i, i + 1), i |-> i + 2]
  ELSE IF ch \in Ops1 THEN [k |-> "op", s |-> ch, i |-> i + 1]
  ELSE IF ch \in EolSet THEN [k |-> "eol", s |-> "", i |-> i]
  ELSE IF ch \in {"$", "?", "!", ";"} THEN [k |-> "bad", s |-> "", i |-> i]
  ELSE [k |-> "unsup", s |-> "", i |-> i]
RECURSIVE TokAll(_, _, _, _)
TokAll(c, s, i, acc) ==
  LET t == Tok(c, s, i) IN
  IF t.k \in {"end", "bad", "unsup"} THEN Append(acc, t)
  ELSE IF t.k = "eol" THEN
    (* a line end is only allowed at the end of the expression or inside parentheses *)
    LET rest == Skip(c, i, GapSet) IN
    IF rest > Len(c) THEN Append(acc, [k |-> "end", s |-> "", i |-> rest]) ELSE Append(acc, [k |-> "unsup", s |-> "", i |-> rest])
  ELSE TokAll(c, s, TLCEval(t.i), TLCEval(Append(acc, t)))

(* ---- tree: precedence climbing ---- *)
Prec(op) ==
  CASE op = "|" -> 5 [] op = "^" -> 6 [] op = "&" -> 7 [] op \in {"<<", ">>"} -> 8
    [] op \in {"+", "-"} -> 9 [] op \in {"*", "/", "//", "%"} -> 10 [] OTHER -> 0
CmpOps == {"==", "!=", "<", ">", "<=", ">="}
Keywords == {"and", "or", "not", "in", "is", "if", "else", "lambda", "for", "None", "True", "False", "await", "async",
             "from", "import", "def", "class", "return", "while", "try", "except", "with", "yield", "pass", "del", "assert",
             "break", "continue", "finally", "global", "nonlocal", "raise", "elif", "as"}
(* results: [ok, e |-> tree, k |-> next token, m] *)
TOk(e, k) == [ok |-> TRUE, e |-> e, k |-> k, m |-> ""]
TErr(m) == [ok |-> FALSE, e |-> [o |-> "none"], k |-> 0, m |-> m]
RECURSIVE ETern(_, _), EOr(_, _), EAnd(_, _), ENot(_, _), ECmp(_, _), EBin(_, _, _), EBinTail(_, _, _, _), EUn(_, _), EPow(_, _), EPrim(_, _), EArgs(_, _, _), ECmpTail(_, _, _, _), EBoolTail(_, _, _, _), ESuffix(_, _, _)
IsOp(T, k, o) == T[k].k = "op" /\ T[k].s = o
IsName(T, k, o) == T[k].k = "name" /\ T[k].s = o
BadTok(T, k) == IF T[k].k = "unsup" THEN TErr("unsup") ELSE TErr("py")
ETern(T, k) ==
  LET a == EOr(T, k) IN
  IF ~a.ok \/ ~IsName(T, a.k, "if") THEN a
  ELSE LET b == EOr(T, a.k + 1) IN
    IF ~b.ok THEN b
    ELSE IF ~IsName(T, b.k, "else") THEN BadTok(T, b.k)
    ELSE LET d == ETern(T, b.k + 1) IN
      IF ~d.ok THEN d ELSE TOk([o |-> "tern", a |-> a.e, b |-> b.e, d |-> d.e], d.k)
EBoolTail(T, op, k, e) ==
  IF ~IsName(T, k, op) THEN TOk(e, k)
  ELSE LET b == IF op = "or" THEN EAnd(T, k + 1) ELSE ENot(T, k + 1) IN
    IF ~b.ok THEN b ELSE EBoolTail(T, op, b.k, [o |-> op, a |-> e, b |-> b.e])
EOr(T, k) == LET a == EAnd(T, k) IN IF ~a.ok THEN a ELSE EBoolTail(T, "or", a.k, a.e)
EAnd(T, k) == LET a == ENot(T, k) IN IF ~a.ok THEN a ELSE EBoolTail(T, "and", a.k, a.e)
ENot(T, k) ==
  IF IsName(T, k, "not") THEN LET a == ENot(T, k + 1) IN IF ~a.ok THEN a ELSE TOk([o |-> "not", a |-> a.e], a.k)
  ELSE ECmp(T, k)
ECmpTail(T, k, e, prev) ==
  IF T[k].k = "op" /\ T[k].s \in CmpOps THEN
    LET b == EBin(T, k + 1, 5) cmp == [o |-> "cmp", op |-> T[k].s, a |-> prev, b |-> b.e] IN
    IF ~b.ok THEN b
    ELSE ECmpTail(T, b.k, IF e.o = "none" THEN cmp ELSE [o |-> "and", a |-> e, b |-> cmp], b.e)
  ELSE IF T[k].k = "name" /\ T[k].s \in {"in", "is"} THEN TErr("unsup")
  ELSE TOk(IF e.o = "none" THEN prev ELSE e, k)
ECmp(T, k) == LET a == EBin(T, k, 5) IN IF ~a.ok THEN a ELSE ECmpTail(T, a.k, [o |-> "none"], a.e)
EBinTail(T, k, p, e) ==
  IF T[k].k = "op" /\ Prec(T[k].s) >= p THEN
    LET b == EBin(T, k + 1, Prec(T[k].s) + 1) IN
    IF ~b.ok THEN b ELSE EBinTail(T, b.k, p, [o |-> "bin", op |-> T[k].s, a |-> e, b |-> b.e])
  ELSE TOk(e, k)
EBin(T, k, p) == LET a == EUn(T, k) IN IF ~a.ok THEN a ELSE EBinTail(T, a.k, p, a.e)
EUn(T, k) ==
  IF T[k].k = "op" /\ T[k].s \in {"-", "+", "~"} THEN
    LET a == EUn(T, k + 1) IN IF ~a.ok THEN a ELSE TOk([o |-> "un", op |-> T[k].s, a |-> a.e], a.k)
  ELSE EPow(T, k)
EPow(T, k) ==
  LET a == EPrim(T, k) IN
  IF ~a.ok \/ ~IsOp(T, a.k, "**") THEN a
  ELSE LET b == EUn(T, a.k + 1) IN IF ~b.ok THEN b ELSE TOk([o |-> "bin", op |-> "**", a |-> a.e, b |-> b.e], b.k)
EArgs(T, k, acc) ==
  IF IsOp(T, k, ")") THEN TOk(acc, k + 1)
  ELSE LET a == ETern(T, k) IN
    IF ~a.ok THEN a
    ELSE IF IsOp(T, a.k, ",") THEN EArgs(T, a.k + 1, Append(acc, a.e))
    ELSE IF IsOp(T, a.k, ")") THEN TOk(Append(acc, a.e), a.k + 1)
    ELSE BadTok(T, a.k)
ESuffix(T, k, e) ==
  IF IsOp(T, k, "(") THEN
    IF e.o # "name" THEN TErr("unsup")
    ELSE LET a == EArgs(T, k + 1, <<>>) IN IF ~a.ok THEN a ELSE ESuffix(T, a.k, [o |-> "call", n |-> e.n, q |-> a.e])
  ELSE IF IsOp(T, k, "[") THEN TErr("unsup")
  ELSE TOk(e, k)
EPrim(T, k) ==
  CASE T[k].k = "int" -> ESuffix(T, k + 1, [o |-> "val", v |-> IntV(ValOf(Chars(T[k].s), 1, Len(T[k].s), 10))])
    [] T[k].k = "str" -> IF T[k + 1].k = "str" THEN TErr("unsup") ELSE ESuffix(T, k + 1, [o |-> "val", v |-> StrV(T[k].s)])
    [] T[k].k = "name" -> IF T[k].s = "True" THEN TOk([o |-> "val", v |-> BoolV(TRUE)], k + 1)
                          ELSE IF T[k].s = "False" THEN TOk([o |-> "val", v |-> BoolV(FALSE)], k + 1)
                          ELSE IF T[k].s \in {"lambda", "None", "await"} THEN TErr("unsup")
                          ELSE IF T[k].s \in Keywords THEN TErr("py")
                          ELSE ESuffix(T, k + 1, [o |-> "name", n |-> T[k].s])
    [] IsOp(T, k, "(") ->
         IF IsOp(T, k + 1, ")") THEN TErr("unsup")
         ELSE LET a == ETern(T, k + 1) IN
           IF ~a.ok THEN a
           ELSE IF IsOp(T, a.k, ")") THEN ESuffix(T, a.k + 1, IF a.e.o = "name" THEN [o |-> "par", a |-> a.e] ELSE a.e)
           ELSE IF IsOp(T, a.k, ",") THEN TErr("unsup")
           ELSE BadTok(T, a.k)
    [] IsOp(T, k, "[") -> TErr("unsup")
    [] OTHER -> BadTok(T, k)

(* [ok, e, m] for an expression text *)
ParseExpr(s) ==
  LET T == TokAll(Chars(s), s, 1, <<>>)
      r == ETern(T, 1)
  IN IF \E k \in 1..Len(T) : T[k].k = "unsup" THEN TErr("unsup")
     ELSE IF ~r.ok THEN r
     ELSE IF IsOp(T, r.k, ",") THEN TErr("unsup")
     ELSE IF T[r.k].k # "end" THEN TErr("py") ELSE r

RECURSIVE ExprNames(_)
(* the names an expression mentions *)
ExprNames(e) ==
  CASE e.o = "val" -> {}
    [] e.o = "name" -> {e.n}
    [] e.o = "call" -> {e.n} \cup UNION {ExprNames(e.q[k]) : k \in 1..Len(e.q)}
    [] e.o \in {"not", "un", "par"} -> ExprNames(e.a)
    [] e.o = "tern" -> ExprNames(e.a) \cup ExprNames(e.b) \cup ExprNames(e.d)
    [] OTHER -> ExprNames(e.a) \cup ExprNames(e.b)

StrOfInt(n) == ToString(n)
StrOfBool(b) == IF b THEN "True" ELSE "False"
RECURSIVE PyFn(_, _)
PyFn(n, q) ==
  CASE n = "len" /\ Len(q) = 1 -> IF IsStr(q[1]) THEN VOk(IntV(Len(q[1].s))) ELSE IF IsList(q[1]) THEN VOk(IntV(Len(q[1].e))) ELSE VErr("py")
    [] n = "abs" /\ Len(q) = 1 -> IF IsNum(q[1]) THEN VOk(IntV(AbsI(NumOf(q[1])))) ELSE VErr(IF q[1].t = "FLOAT" THEN "unsup" ELSE "py")
    [] n \in {"min", "max"} /\ Len(q) = 2 ->
         IF IsNum(q[1]) /\ IsNum(q[2]) THEN
           VOk(IF n = "min" THEN (IF NumOf(q[2]) < NumOf(q[1]) THEN q[2] ELSE q[1]) ELSE (IF NumOf(q[2]) > NumOf(q[1]) THEN q[2] ELSE q[1]))
         ELSE VErr("unsup")
    [] n = "str" /\ Len(q) = 1 ->
         IF q[1].t = "INT" THEN VOk(StrV(StrOfInt(q[1].v))) ELSE IF q[1].t = "BOOL" THEN VOk(StrV(StrOfBool(q[1].v)))
         ELSE IF IsStr(q[1]) THEN VOk(StrV(q[1].s)) ELSE VErr("unsup")
    [] n = "int" /\ Len(q) = 1 -> IF IsNum(q[1]) THEN VOk(IntV(NumOf(q[1]))) ELSE VErr("unsup")
    [] n = "bool" /\ Len(q) = 1 -> IF IsNum(q[1]) \/ IsStr(q[1]) THEN VOk(BoolV(Truthy(q[1]))) ELSE VErr("unsup")
    [] OTHER -> VErr("unsup")
PyEval(code, env) ==
  LET names == SetToSeq(DOMAIN env) IN
  Ask("eval", <<StrV(code)>> \o [k \in 1..(2 * Len(names)) |-> IF k % 2 = 1 THEN StrV(names[(k + 1) \div 2]) ELSE env[names[k \div 2]]])
RECURSIVE EvalExpr(_, _)
(* env: a function from names to values *)
EvalExpr(e, env) ==
  CASE e.o = "val" -> VOk(e.v)
    [] e.o = "par" -> EvalExpr(e.a, env)
    [] e.o = "name" -> IF e.n \in DOMAIN env THEN VOk(env[e.n]) ELSE VErr(IF StartsWith(e.n, "undef") THEN "py" ELSE "unsup")
    [] e.o = "call" ->
         IF e.n \in DOMAIN env THEN VErr("py")
         ELSE LET q == [k \in 1..Len(e.q) |-> EvalExpr(e.q[k], env)] IN
           IF \E k \in 1..Len(q) : ~q[k].ok THEN q[CHOOSE k \in 1..Len(q) : ~q[k].ok /\ \A j \in 1..(k - 1) : q[j].ok]
           ELSE PyFn(e.n, [k \in 1..Len(q) |-> q[k].v])
    [] e.o = "not" -> LET a == EvalExpr(e.a, env) IN IF ~a.ok THEN a ELSE VOk(BoolV(~Truthy(a.v)))
    [] e.o = "un" ->
         LET a == EvalExpr(e.a, env) IN
         IF ~a.ok THEN a
         ELSE IF IsNum(a.v) THEN VOk(IntV(IF e.op = "-" THEN -NumOf(a.v) ELSE IF e.op = "~" THEN -NumOf(a.v) - 1 ELSE NumOf(a.v)))
         ELSE VErr(IF a.v.t = "FLOAT" THEN "unsup" ELSE "py")
    [] e.o = "and" -> LET a == EvalExpr(e.a, env) IN IF ~a.ok \/ ~Truthy(a.v) THEN a ELSE EvalExpr(e.b, env)
    [] e.o = "or" -> LET a == EvalExpr(e.a, env) IN IF ~a.ok \/ Truthy(a.v) THEN a ELSE EvalExpr(e.b, env)
    [] e.o = "tern" -> LET b == EvalExpr(e.b, env) IN IF ~b.ok THEN b ELSE IF Truthy(b.v) THEN EvalExpr(e.a, env) ELSE EvalExpr(e.d, env)
    [] e.o = "cmp" -> LET a == EvalExpr(e.a, env) b == EvalExpr(e.b, env) IN IF ~a.ok THEN a ELSE IF ~b.ok THEN b ELSE Compare(e.op, a.v, b.v)
    [] e.o = "bin" -> LET a == EvalExpr(e.a, env) b == EvalExpr(e.b, env) IN IF ~a.ok THEN a ELSE IF ~b.ok THEN b ELSE Arith(e.op, a.v, b.v)

(* ---- string literals ---- *)
EscTab == ("n" :> "\n") @@ ("t" :> "\t") @@ ("r" :> "\r") @@ ("\\" :> "\\") @@ ("'" :> "'") @@ ("\"" :> "\"")
RECURSIVE Unesc(_, _, _)
(* [ok, v |-> STRING] *)
Unesc(s, i, acc) ==
  LET j == IndexFrom(s, "\\", i) IN
  IF j = 0 THEN VOk(acc \o SubSeq(s, i, Len(s)))
  ELSE IF j = Len(s) THEN VErr("unsup")
  ELSE LET x == SubSeq(s, j + 1, j + 1) IN
    IF x \notin DOMAIN EscTab THEN VErr("unsup")
    ELSE Unesc(s, TLCEval(j + 2), TLCEval(acc \o SubSeq(s, i, j - 1) \o EscTab[x]))
AsciiOnly(s) == LET c == Chars(s) IN \A k \in 1..Len(c) : c[k] \in KnownChars /\ OrdTab[c[k]] < 127
(* the text of a string literal, escapes resolved; a text without quotes is only unescaped *)
Unq(s) ==
  IF s = "" THEN VOk("")
  ELSE LET q == SubSeq(s, 1, 1) IN
  IF q \in {"'", "\""} THEN
    LET c == Chars(s) e == QuotedEnd(c, 2, q) IN
    IF e = Len(s) + 1 /\ IndexFrom(s, "\n", 1) = 0 THEN
      (IF Len(s) >= 2 /\ ~(Len(s) >= 3 /\ SubSeq(s, 2, 2) = q) THEN Unesc(SubSeq(s, 2, Len(s) - 1), 1, "") ELSE VErr("unsup"))
    ELSE VErr("unsup")
  ELSE IF ~AsciiOnly(s) THEN VErr("unsup")
  ELSE Unesc(s, 1, "")
UnqLit(s) == Unq(s)

(* ---- an expression without names, as the text str() gives ---- *)
ValueOf(code) ==
  LET x == ParseExpr(code) IN
  IF ~x.ok THEN [ok |-> FALSE, v |-> "", m |-> x.m]
  ELSE LET r == EvalExpr(x.e, <<>>) IN
    IF ~r.ok THEN [ok |-> FALSE, v |-> "", m |-> r.m]
    ELSE CASE r.v.t = "INT" -> [ok |-> TRUE, v |-> StrOfInt(r.v.v), m |-> ""]
           [] r.v.t = "BOOL" -> [ok |-> TRUE, v |-> StrOfBool(r.v.v), m |-> ""]
           [] r.v.t = "str" -> [ok |-> TRUE, v |-> r.v.s, m |-> ""]
           [] OTHER -> [ok |-> FALSE, v |-> "", m |-> "unsup"]
=============================================================================
