------------------------------ MODULE YBuiltin -----------------------------
(* Built-in functions: what a function returns for terminal arguments.       *)
EXTENDS YParse

BuiltinSeq == JsonDeserialize("builtins.json")
(* names the preprocessor itself gives a meaning *)
BuiltinNames == {BuiltinSeq[k] : k \in 1..Len(BuiltinSeq)}
ConstNames == {"whitespace", "ascii_lowercase", "ascii_uppercase", "ascii_letters", "digits", "hexdigits", "octdigits", "punctuation", "printable", "tau", "inf", "nan", "pi", "e"}
ConstText == ("ascii_lowercase" :> JoinStr(LowerSeq)) @@ ("ascii_uppercase" :> JoinStr(UpperSeq)) @@ ("ascii_letters" :> (JoinStr(LowerSeq) \o JoinStr(UpperSeq)))
             @@ ("digits" :> "0123456789") @@ ("hexdigits" :> "0123456789abcdefABCDEF") @@ ("octdigits" :> "01234567")
SpecialNames == {"__PASSAGE__", "isatom", "lazy", "skip", "reduce", "repr"}

NodeStr(n) ==
  CASE n.t \in StrTags -> VOk(StrV(n.s))
    [] n.t = "INT" -> VOk(StrV(StrOfInt(n.v)))
    [] n.t = "BOOL" -> VOk(StrV(StrOfBool(n.v)))
    [] n.t = "FLOAT" -> VOk(StrV(n.s))
    [] OTHER -> VErr("unsup")
VBind(r, F(_)) == IF r.ok THEN F(r.v) ELSE r
MapV(q, F(_)) ==
  LET r == [k \in 1..Len(q) |-> F(q[k])] IN
  IF \E k \in 1..Len(q) : ~r[k].ok THEN r[CHOOSE k \in 1..Len(q) : ~r[k].ok /\ \A j \in 1..(k - 1) : r[j].ok]
  ELSE VOk([k \in 1..Len(q) |-> r[k].v])

UnqNode(n) == IF n.t = "STR" THEN Unq(n.s) ELSE VBind(NodeStr(n), LAMBDA v : VOk(v.s))

QEsc(c) == CASE c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] c = "\\" -> "\\\\" [] OTHER -> c
QuoteStr(s, q) == IF \E k \in 1..Len(s) : SubSeq(s, k, k) \notin KnownChars \/ ~(OrdTab[SubSeq(s, k, k)] \in (32..126 \cup {9, 10, 13})) THEN VErr("unsup")
                  ELSE VOk(StrV(q \o MapStr(s, QEsc) \o q))

HexDig == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE Radix(_, _)
Radix(n, b) == IF n < b THEN HexDig[n + 1] ELSE Radix(n \div b, b) \o HexDig[(n % b) + 1]
IntText(s) == LET c == Chars(s) a == IF At(c, 1) \in {"-", "+"} THEN 2 ELSE 1 IN
  Len(c) >= a /\ Skip(c, a, Digits) = Len(c) + 1 /\ Len(c) - a < 9
TextInt(s) == LET c == Chars(s) a == IF At(c, 1) \in {"-", "+"} THEN 2 ELSE 1 v == ValOf(c, a, Len(c), 10) IN
  IF At(c, 1) = "-" THEN -v ELSE v
CapStr(s) == IF s = "" THEN s ELSE UpperStr(SubSeq(s, 1, 1)) \o LowerStr(SubSeq(s, 2, Len(s)))
SwapChar(c) == IF c \in UpperSet THEN Lower1(c) ELSE Upper1(c)
Reverse0(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
RevStr(s) == JoinStr(Reverse0(Chars(s)))
(* Python slice bounds for a sequence of length n: 0-based, half open *)
Clamp(v, n) == LET a == IF v < 0 THEN v + n ELSE v IN IF a < 0 THEN 0 ELSE IF a > n THEN n ELSE a
SliceOf(x, a, b) ==
  IF IsStr(x) THEN VOk(StrV(IF a >= b THEN "" ELSE SubSeq(x.s, a + 1, b)))
  ELSE IF IsList(x) THEN VOk(List(IF a >= b THEN <<>> ELSE SubSeq(x.e, a + 1, b)))
  ELSE VErr("py")
LenOf(x) == IF IsStr(x) THEN Len(x.s) ELSE Len(x.e)
RECURSIVE LastIndexFrom(_, _, _, _)
LastIndexFrom(s, p, i, last) == LET j == IndexFrom(s, p, i) IN IF j = 0 THEN last ELSE LastIndexFrom(s, p, TLCEval(j + 1), j)
RECURSIVE CountSub(_, _, _, _)
CountSub(s, p, i, n) == LET j == IndexFrom(s, p, i) IN IF j = 0 THEN n ELSE CountSub(s, p, TLCEval(j + Len(p)), TLCEval(n + 1))
Uniq(q) == LET keep == SelectSeq([k \in 1..Len(q) |-> k], LAMBDA k : \A j \in 1..(k - 1) : ~ValEq(q[j], q[k])) IN
  [k \in 1..Len(keep) |-> q[keep[k]]]
PadTo(s, w, left) == LET n == w - Len(s) IN IF n <= 0 THEN s ELSE IF left THEN Repeat(" ", n) \o s ELSE s \o Repeat(" ", n)
ZFill(s, w) ==
  LET n == w - Len(s) IN
  IF n <= 0 THEN s
  ELSE IF s # "" /\ SubSeq(s, 1, 1) \in {"-", "+"} THEN SubSeq(s, 1, 1) \o Repeat("0", n) \o SubSeq(s, 2, Len(s))
  ELSE Repeat("0", n) \o s
RangeSeq(a, b, d) ==
  LET n == IF d > 0 THEN (IF b > a THEN (b - a + d - 1) \div d ELSE 0) ELSE (IF a > b THEN (a - b + (-d) - 1) \div (-d) ELSE 0) IN
  [k \in 1..n |-> IntV(a + (k - 1) * d)]
BitOps == ("and" :> "&") @@ ("and_" :> "&") @@ ("or" :> "|") @@ ("or_" :> "|") @@ ("xor" :> "^")
ArithOps == ("add" :> "+") @@ ("sub" :> "-") @@ ("mul" :> "*") @@ ("floordiv" :> "//") @@ ("mod" :> "%") @@ ("div" :> "/") @@ ("truediv" :> "/")
            @@ ("lshift" :> "<<") @@ ("rshift" :> ">>") @@ BitOps
CmpNames == ("eq" :> "==") @@ ("ne" :> "!=") @@ ("lt" :> "<") @@ ("le" :> "<=") @@ ("gt" :> ">") @@ ("ge" :> ">=")
StrFns1 == {"upper", "lower", "swapcase", "capitalize", "strip", "lstrip", "rstrip"}

(* q: the arguments; cfg: the configuration of the translation *)
BCall0(name, q, cfg) ==
  LET n == Len(q)
      a == IF n >= 1 THEN q[1] ELSE NoneN
      b == IF n >= 2 THEN q[2] ELSE NoneN
      d == IF n >= 3 THEN q[3] ELSE NoneN
  IN
  CASE name \in DOMAIN ArithOps -> IF n # 2 THEN VErr("py") ELSE Arith(ArithOps[name], a, b)
    [] name \in DOMAIN CmpNames -> IF n # 2 THEN VErr("py") ELSE Compare(CmpNames[name], a, b)
    [] name = "neg" -> IF n # 1 THEN VErr("py") ELSE IF IsNum(a) THEN VOk(IntV(-NumOf(a))) ELSE VErr(IF a.t = "FLOAT" THEN "unsup" ELSE "py")
    [] name = "abs" -> IF n # 1 THEN VErr("py") ELSE IF IsNum(a) THEN VOk(IntV(AbsI(NumOf(a)))) ELSE VErr(IF a.t = "FLOAT" THEN "unsup" ELSE "py")
    [] name \in {"inc", "dec"} ->
         IF n # 1 THEN VErr("py") ELSE IF IsNum(a) THEN Bounded(IF name = "inc" THEN NumOf(a) + 1 ELSE NumOf(a) - 1) ELSE VErr(IF a.t = "FLOAT" THEN "unsup" ELSE "py")
    [] name \in {"not", "not_"} -> IF n # 1 THEN VErr("py") ELSE VOk(BoolV(~Truthy(a)))
    [] name = "truth" -> IF n # 1 THEN VErr("py") ELSE VOk(BoolV(Truthy(a)))
    [] name = "cmp" -> IF n # 2 THEN VErr("py") ELSE
         LET g == Compare(">", a, b) l == Compare("<", a, b) IN
         IF ~g.ok THEN g ELSE IF ~l.ok THEN l ELSE VOk(IntV((IF g.v.v THEN 1 ELSE 0) - (IF l.v.v THEN 1 ELSE 0)))
    [] name = "concat" -> IF n # 2 THEN VErr("py") ELSE IF (IsStr(a) /\ IsStr(b)) \/ (IsList(a) /\ IsList(b)) THEN Arith("+", a, b) ELSE VErr("py")
    [] name = "len" -> IF n # 1 \/ ~(IsStr(a) \/ IsList(a)) THEN VErr("py") ELSE VOk(IntV(LenOf(a)))
    [] name = "list" -> VOk(List(q))
    [] name = "range" ->
         IF n \notin 1..3 \/ \E k \in 1..n : ~IsNum(q[k]) THEN VErr("py")
         ELSE IF n = 3 /\ NumOf(d) = 0 THEN VErr("py")
         ELSE LET r == RangeSeq(IF n = 1 THEN 0 ELSE NumOf(a), IF n = 1 THEN NumOf(a) ELSE NumOf(b), IF n = 3 THEN NumOf(d) ELSE 1) IN
              IF Len(r) > 200 THEN VErr("unsup") ELSE VOk(List(r))
    [] name = "reversed" -> IF n # 1 THEN VErr("py") ELSE IF IsStr(a) THEN VOk(StrV(RevStr(a.s))) ELSE IF IsList(a) THEN VOk(List(Reverse0(a.e))) ELSE VErr("py")
    [] name = "car" -> IF n # 1 \/ ~(IsStr(a) \/ IsList(a)) THEN VErr("py") ELSE SliceOf(a, 0, IF LenOf(a) > 0 THEN 1 ELSE 0)
    [] name = "cdr" -> IF n # 1 \/ ~(IsStr(a) \/ IsList(a)) THEN VErr("py") ELSE SliceOf(a, 1, LenOf(a))
    [] name = "getslice" ->
         IF n \notin 2..3 THEN VErr(IF n = 4 THEN "unsup" ELSE "py")
         ELSE IF ~(IsStr(a) \/ IsList(a)) THEN VErr("py")
         ELSE IF \E k \in 2..n : ~IsNum(q[k]) /\ ~(IsStr(q[k]) /\ q[k].s = "") THEN VErr("py")
         ELSE LET z == LenOf(a)
                  lo == IF n = 2 THEN 0 ELSE IF IsStr(b) THEN 0 ELSE Clamp(NumOf(b), z)
                  h == IF n = 2 THEN b ELSE d
                  hi == IF IsStr(h) THEN z ELSE Clamp(NumOf(h), z)
              IN SliceOf(a, lo, hi)
    [] name \in {"index", "rindex"} ->
         IF n # 2 THEN VErr("py")
         ELSE IF IsList(a) THEN
           LET K == {k \in 1..Len(a.e) : ValEq(a.e[k], b)} IN
           VOk(IntV(IF K = {} THEN -1
                    ELSE (IF name = "index" THEN CHOOSE k \in K : \A j \in K : k <= j ELSE CHOOSE k \in K : \A j \in K : k >= j) - 1))
         ELSE IF IsStr(a) /\ IsStr(b) THEN
           IF name = "index" THEN VOk(IntV(IF b.s = "" THEN 0 ELSE IndexFrom(a.s, b.s, 1) - 1))
           ELSE IF Len(b.s) = 1 THEN VOk(IntV(LastIndexFrom(a.s, b.s, 1, 0) - 1)) ELSE VErr("unsup")
         ELSE VErr("py")
    [] name = "islist" -> IF n # 1 THEN VErr("py") ELSE VOk(BoolV(IsList(a)))
    [] name = "isdigit" -> IF n # 1 THEN VErr("py") ELSE VBind(NodeStr(a), LAMBDA v : VOk(BoolV(v.s # "" /\ Skip(Chars(v.s), 1, Digits) > Len(v.s))))
    [] name = "str" -> IF n = 0 THEN VOk(StrV("")) ELSE IF n # 1 THEN VErr("unsup") ELSE NodeStr(a)
    [] name = "strlen" -> IF n # 1 THEN VErr("py") ELSE VBind(UnqNode(a), LAMBDA s : VOk(IntV(Len(s))))
    [] name = "unq" -> IF n # 1 THEN VErr("py") ELSE
         IF IsStr(a) THEN VBind(Unq(a.s), LAMBDA s : VOk(StrV(s))) ELSE NodeStr(a)
    [] name \in {"q", "qs"} -> IF n # 1 THEN VErr("py") ELSE VBind(NodeStr(a), LAMBDA v : QuoteStr(v.s, IF name = "q" THEN "\"" ELSE "'"))
    [] name = "join" ->
         IF n \notin 1..2 THEN VErr("py")
         ELSE IF n = 2 /\ ~IsStr(b) THEN VErr("py")
         ELSE IF IsList(a) THEN
           IF \E k \in 1..Len(a.e) : ~IsStr(a.e[k]) THEN VErr("py")
           ELSE VOk(StrV(JoinSep([k \in 1..Len(a.e) |-> a.e[k].s], IF n = 2 THEN b.s ELSE " ")))
         ELSE IF IsStr(a) THEN VOk(StrV(JoinSep(Chars(a.s), IF n = 2 THEN b.s ELSE " ")))
         ELSE VErr("py")
    [] name = "split" ->
         IF n \notin 1..2 THEN VErr(IF n = 3 THEN "unsup" ELSE "py")
         ELSE IF ~IsStr(a) \/ (n = 2 /\ (~IsStr(b) \/ b.s = "")) THEN VErr("py")
         ELSE LET r == IF n = 1 THEN SplitWs(a.s) ELSE SplitStr(a.s, b.s) IN VOk(List([k \in 1..Len(r) |-> StrV(r[k])]))
    [] name = "replace" ->
         IF n # 3 THEN VErr(IF n = 4 THEN "unsup" ELSE "py")
         ELSE IF ~(IsStr(a) /\ IsStr(b) /\ IsStr(d)) THEN VErr("py")
         ELSE IF b.s = "" THEN VErr("unsup") ELSE VOk(StrV(Replace(a.s, b.s, d.s)))
    [] name \in StrFns1 ->
         IF n # 1 THEN VErr(IF n = 2 THEN "unsup" ELSE "py")
         ELSE IF ~IsStr(a) THEN VErr("py")
         ELSE IF ~AsciiOnly(a.s) THEN VErr("unsup")
         ELSE VOk(StrV(CASE name = "upper" -> UpperStr(a.s) [] name = "lower" -> LowerStr(a.s) [] name = "capitalize" -> CapStr(a.s)
                         [] name = "swapcase" -> MapStr(a.s, SwapChar) [] name = "strip" -> Strip(a.s) [] name = "lstrip" -> LStrip(a.s) [] name = "rstrip" -> RStrip(a.s)))
    [] name \in {"ljust", "rjust"} ->
         IF n # 2 THEN VErr(IF n = 3 THEN "unsup" ELSE "py") ELSE IF ~IsStr(a) \/ ~IsNum(b) THEN VErr("py")
         ELSE VOk(StrV(PadTo(a.s, NumOf(b), name = "rjust")))
    [] name = "zfill" ->
         IF n # 2 \/ ~IsNum(b) THEN VErr("py") ELSE IF IsStr(a) THEN VOk(StrV(ZFill(a.s, NumOf(b)))) ELSE VErr("unsup")
    [] name \in {"find", "count"} ->
         IF n # 2 THEN VErr(IF n \in 3..4 THEN "unsup" ELSE "py") ELSE
         IF ~(IsStr(a) /\ IsStr(b)) THEN VErr(IF IsList(a) THEN "unsup" ELSE "py") ELSE IF b.s = "" THEN VErr("unsup")
         ELSE VOk(IntV(IF name = "find" THEN IndexFrom(a.s, b.s, 1) - 1 ELSE CountSub(a.s, b.s, 1, 0)))
    [] name = "atoi" ->
         IF n \notin 1..2 THEN VErr("py")
         ELSE IF ~IsStr(a) THEN VErr("unsup")
         ELSE IF n = 1 \/ ValEq(b, IntV(10)) THEN (IF IntText(a.s) THEN VOk(IntV(TextInt(a.s))) ELSE VErr("unsup"))
         ELSE IF ValEq(b, IntV(2)) /\ a.s # "" /\ Skip(Chars(a.s), 1, {"0", "1"}) > Len(a.s) /\ Len(a.s) < 30 THEN VOk(IntV(ValOf(Chars(a.s), 1, Len(a.s), 2)))
         ELSE VErr("unsup")
    [] name \in {"hex", "oct"} ->
         IF n # 1 \/ ~IsNum(a) THEN VErr("py")
         ELSE VOk(StrV((IF NumOf(a) < 0 THEN "-" ELSE "") \o (IF name = "hex" THEN "0x" \o Radix(AbsI(NumOf(a)), 16) ELSE "0o" \o Radix(AbsI(NumOf(a)), 8))))
    [] name = "chr" -> IF n # 1 \/ ~IsNum(a) THEN VErr("py") ELSE IF NumOf(a) \in 32..126 THEN VOk(StrV(Chr(NumOf(a)))) ELSE VErr("unsup")
    [] name = "ord" -> IF n # 1 THEN VErr("py") ELSE VBind(NodeStr(a), LAMBDA v : IF Len(v.s) # 1 THEN VErr("py") ELSE VOk(IntV(Ord(v.s))))
    [] name = "sum" ->
         IF n # 1 THEN VErr(IF n = 2 THEN "unsup" ELSE "py")
         ELSE IF IsList(a) THEN
           IF \E k \in 1..Len(a.e) : a.e[k].t = "FLOAT" THEN VErr("unsup")
           ELSE IF \E k \in 1..Len(a.e) : ~IsNum(a.e[k]) THEN VErr("py")
           ELSE Bounded(FoldLeft(LAMBDA x, y : x + NumOf(y), 0, a.e))
         ELSE VErr(IF IsStr(a) /\ a.s = "" THEN "unsup" ELSE "py")
    [] name = "unique" ->
         IF n # 1 THEN VErr(IF n = 2 THEN "unsup" ELSE "py")
         ELSE IF IsList(a) THEN (IF \E k \in 1..Len(a.e) : ~(IsStr(a.e[k]) \/ IsNum(a.e[k])) THEN VErr("unsup") ELSE VOk(List(Uniq(a.e))))
         ELSE IF IsStr(a) THEN LET c == Chars(a.s) IN VOk(List(Uniq([k \in 1..Len(c) |-> StrV(c[k])])))
         ELSE VErr("py")
    [] name = "typeof" -> IF n # 1 THEN VErr("py") ELSE IF a.t \in {"STR", "ATOM", "INT", "FLOAT"} THEN VErr("unsup") ELSE VErr("unsup")
    [] name = "SPACE" -> IF n # 0 THEN VErr("py") ELSE VOk(StrV(STEADY_SPACE))
    [] name = "TAB" -> IF n # 0 THEN VErr("py") ELSE VOk(StrV(STEADY_TAB))
    [] name = "__FILE__" -> IF n # 0 THEN VErr("py") ELSE VOk(StrV("\"" \o cfg.input \o "\""))
    [] name = "__OUTPUT_FILE__" -> IF n # 0 THEN VErr("py") ELSE VOk(StrV("\"" \o cfg.output \o "\""))
    [] name = "__MODULE_NAME__" -> IF n # 0 THEN VErr("py") ELSE VOk(StrV(cfg.module))
    [] OTHER -> VErr("unsup")
OwnNames == {"SPACE", "TAB", "__FILE__", "__OUTPUT_FILE__", "__MODULE_NAME__", "__TITLE__", "print"}
BCall(name, q, cfg) ==
  LET v == BCall0(name, q, cfg) IN IF ~v.ok /\ v.m = "unsup" /\ name \notin OwnNames THEN Ask("." \o name, q) ELSE v
=============================================================================
