------------------------------- MODULE YNode -------------------------------
(* Nodes of the syntax tree, and the lexical pieces shared by the grammar of *)
(* the source and the grammar of infix expressions.                          *)
(* A node carries the source f it was read from and its 1-based place p.     *)
EXTENDS YPath

NoneN == [t |-> "None"]
Node(t, s, f, p) == [t |-> t, s |-> s, f |-> f, p |-> p]
Plain(s, ind, f, p) == [t |-> "PLAIN", s |-> s, ind |-> ind, trim |-> FALSE, f |-> f, p |-> p]
Atom(s, f, p) == Node("ATOM", s, f, p)
Str(s, f, p) == Node("STR", s, f, p)
IntN(v) == [t |-> "INT", v |-> v]
List(e) == [t |-> "LIST", e |-> e]
Text(e) == [t |-> "TEXT", e |-> e]

(* ---- lexical pieces: index after the piece, or 0 ---- *)
RECURSIVE QuotedEnd(_, _, _)
(* end of a C literal opened by q; i is the index after the opening quote    *)
QuotedEnd(c, i, q) ==
  LET j == Find(c, i, {q, "\\"}) IN
  IF j > Len(c) THEN 0
  ELSE IF c[j] = q THEN j + 1
  ELSE IF j + 1 > Len(c) \/ c[j + 1] = "\n" THEN 0
  ELSE QuotedEnd(c, TLCEval(j + 2), q)
CLiteral(c, i) == IF At(c, i) \in {"\"", "'"} THEN QuotedEnd(c, i + 1, c[i]) ELSE 0

(* ---- digits ---- *)
DigitVal(x) == IF x \in Digits THEN OrdTab[x] - 48 ELSE IF x \in LowerSet THEN OrdTab[x] - 87 ELSE OrdTab[x] - 55
ValOf(c, a, b, base) == FoldLeft(LAMBDA v, k : v * base + DigitVal(c[k]), 0, [k \in 1..(b - a + 1) |-> a + k - 1])
=============================================================================
