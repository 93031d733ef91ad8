------------------------------- MODULE YParse ------------------------------
(* Grammar of yupp: from a source text to its syntax tree.                   *)
(*                                                                           *)
(* K    the source being read: [f |-> name, s |-> text, c |-> Chars(text)]   *)
(* st   the translation so far; the parser reads st.cfg (py, skip, files)    *)
(*      and extends st.src (the sources read so far) on an import            *)
(* A parsing operator takes (K, i, st) with i the 1-based index of the next  *)
(* character, and gives                                                      *)
(*   [ok |-> TRUE, i |-> next index, n |-> node, st |-> st']     or          *)
(*   [ok |-> FALSE, m |-> reason, f |-> source, i |-> index, st |-> st]      *)
(* reason "eof" and "py" have no place of their own; "unsup" marks a text    *)
(* that this specification does not describe.                                *)
EXTENDS YExpr

Ok(i, n, st) == [ok |-> TRUE, i |-> i, n |-> n, st |-> st]
Fail(m, f, i, st) == [ok |-> FALSE, m |-> m, f |-> f, i |-> i, st |-> st, n |-> NoneN]
(* Python literals: an optional prefix, ' or " or the tripled quotes.        *)
RECURSIVE Py1Line(_, _, _)
(* one-line literal from i: [k |-> "end", i] | [k |-> "cont", i] (a backslash ends the line) | [k |-> "no"] *)
Py1Line(c, i, q) ==
  LET j == Find(c, i, {q, "\\", "\n"}) IN
  IF j > Len(c) THEN [k |-> "no", i |-> 0]
  ELSE IF c[j] = q THEN [k |-> "end", i |-> j + 1]
  ELSE IF c[j] = "\n" THEN [k |-> "no", i |-> 0]
  ELSE IF j + 1 > Len(c) THEN [k |-> "no", i |-> 0]
  ELSE IF c[j + 1] = "\n" THEN [k |-> "cont", i |-> j + 2]
  ELSE Py1Line(c, TLCEval(j + 2), q)
RECURSIVE Py3End(_, _, _)
Py3End(c, i, q) ==
  LET j == Find(c, i, {q, "\\"}) IN
  IF j > Len(c) THEN 0
  ELSE IF c[j] = "\\" THEN Py3End(c, TLCEval(j + 2), q)
  ELSE IF At(c, j + 1) = q /\ At(c, j + 2) = q THEN j + 3
  ELSE Py3End(c, TLCEval(j + 1), q)
RECURSIVE Py1Cont(_, _, _)
Py1Cont(c, i, q) ==
  LET r == Py1Line(c, i, q) IN
  IF r.k = "cont" THEN Py1Cont(c, TLCEval(r.i), q)
  ELSE IF r.k = "no" THEN
    LET j == Find(c, i, {"\n"}) IN
    IF i > Len(c) THEN [k |-> "bad", i |-> 0] ELSE IF c[j - 1] = "\\" THEN [k |-> "odd", i |-> 0] ELSE [k |-> "bad", i |-> i]
  ELSE r
(* [k |-> "end", i] | [k |-> "no"] | [k |-> "bad"] unclosed, i the line that does not go on, 0 at the end of the source *)
PyLiteral(c, i) ==
  LET a == IF At(c, i) \in {"u", "U"} THEN i + 1 ELSE i
      b == IF At(c, a) \in {"r", "R"} THEN a + 1 ELSE a
      q == At(c, b)
  IN IF q \notin {"'", "\""} THEN [k |-> "no", i |-> 0]
     ELSE IF At(c, b + 1) = q /\ At(c, b + 2) = q
          THEN LET e == Py3End(c, b + 3, q) IN
               IF e = 0 THEN [k |-> "bad", i |-> 0] ELSE [k |-> "end", i |-> e]
     ELSE LET r == Py1Line(c, b + 1, q) IN
          IF r.k # "cont" THEN r
          ELSE Py1Cont(c, r.i, q)

AtomEnd(c, i) == IF At(c, i) \in Letters THEN Skip(c, i + 1, AtomTail) ELSE i
Gap(c, i) == Skip(c, i, GapSet)

(* ---- a parenthesised raw text: from i up to the ")" that closes it ---- *)
RECURSIVE RawEnd(_, _, _)
(* index of the closing ")", 0 at end of source, -1 at a forbidden character *)
RawEnd(c, i, d) ==
  LET j == CHOOSE j \in i..(Len(c) + 1) :
             /\ (j > Len(c) \/ c[j] \in {"(", ")"} \/ c[j] \notin AnySet)
             /\ \A k \in i..(j - 1) : c[k] \notin {"(", ")"} /\ c[k] \in AnySet
  IN IF j > Len(c) THEN 0
     ELSE IF c[j] \notin AnySet THEN -1
     ELSE IF c[j] = "(" THEN RawEnd(c, TLCEval(j + 1), TLCEval(d + 1))
     ELSE IF d = 0 THEN j ELSE RawEnd(c, TLCEval(j + 1), TLCEval(d - 1))
(* ret(text) on success *)
Raw(K, i, st, ret(_)) ==
  LET e == RawEnd(K.c, i, 0) IN
  IF e = 0 THEN Fail("eof", K.f, i, st)
  ELSE IF e = -1 THEN Fail("char", K.f, i, st)
  ELSE Ok(e + 1, ret(SubSeq(K.s, i, e - 1)), st)

Quote(K, i, st) ==
  LET ch == At(K.c, i)
      pyl == IF st.cfg.py /\ ch \in {"u", "U", "r", "R", "'", "\""} THEN PyLiteral(K.c, i) ELSE [k |-> "no", i |-> 0]
      cl == IF ~st.cfg.py /\ ch \in {"'", "\""} THEN CLiteral(K.c, i) ELSE 0
      b == IF ch # "(" THEN 0 ELSE IF StartsAt(K.s, i, "(`") THEN 2 ELSE IF StartsAt(K.s, i, "($quote") THEN 7 ELSE 0
      S(x) == Str(x, K.f, i + b)
  IN IF pyl.k = "odd" THEN Fail("unsup", K.f, i, st)
     ELSE IF pyl.k = "bad" THEN (IF pyl.i = 0 THEN Fail("eof", K.f, i, st) ELSE Fail("syn", K.f, pyl.i, st))
     ELSE IF pyl.k = "end" THEN Ok(pyl.i, Str(SubSeq(K.s, i, pyl.i - 1), K.f, i), st)
     ELSE IF cl # 0 THEN Ok(cl, Str(SubSeq(K.s, i, cl - 1), K.f, i), st)
     ELSE IF b # 0 THEN
       IF At(K.c, i + b) = ")" THEN Ok(i + b + 1, Str("", "", 0), st) ELSE Raw(K, i + b, st, S)
     ELSE Ok(i, NoneN, st)

(* ---- numbers ---- *)
Number(K, i, st) ==
  LET c == K.c
      neg == At(c, i) = "-"
      a == IF At(c, i) \in {"+", "-"} THEN i + 1 ELSE i
      fa == Skip(c, a, {" "})
      fb == Skip(c, fa, Digits)
      fc == IF fb > fa /\ At(c, fb) = "." THEN Skip(c, fb + 1, Digits) ELSE 0
      isf == fc > fb + 1
      xs == IF isf /\ At(c, fc) \in {"e", "E"} THEN (IF At(c, fc + 1) \in {"+", "-"} THEN fc + 2 ELSE fc + 1) ELSE 0
      fe == IF xs # 0 /\ At(c, xs) \in Digits THEN Skip(c, xs, Digits) ELSE fc
      ia == Skip(c, a, SpaceSet)
      z == At(c, ia) = "0"
      m1 == At(c, ia + 1)
      hx == IF z /\ m1 \in {"x", "X"} THEN Skip(c, ia + 2, HexDigits) ELSE 0
      bn == IF z /\ m1 \in {"b", "B"} THEN Skip(c, ia + 2, {"0", "1"}) ELSE 0
      oc == IF z /\ m1 \in {"o", "O"} THEN Skip(c, ia + 2, {"0","1","2","3","4","5","6","7"}) ELSE 0
      z0 == IF z THEN Skip(c, ia + 1, {"0","1","2","3","4","5","6","7"}) ELSE 0
      dc == IF At(c, ia) \in (Digits \ {"0"}) THEN Skip(c, ia, Digits) ELSE 0
      kind == IF hx > ia + 2 THEN "x" ELSE IF bn > ia + 2 THEN "b" ELSE IF oc > ia + 2 THEN "o"
              ELSE IF z THEN "z" ELSE IF dc # 0 THEN "d" ELSE ""
      e == CASE kind = "x" -> hx [] kind = "b" -> bn [] kind = "o" -> oc [] kind = "z" -> z0 [] kind = "d" -> dc [] OTHER -> 0
      el == IF At(c, e) \in {"l", "L"} THEN e + 1 ELSE e
      sg(v) == IF neg THEN -v ELSE v
  IN IF At(c, i) \notin (Digits \cup {"+", "-", " "}) /\ ~(At(c, i) \in SpaceSet) THEN Ok(i, NoneN, st)
     ELSE IF isf THEN LET v == Ask("num", <<StrV(SubSeq(K.s, i, fe - 1))>>) IN IF v.ok THEN Ok(fe, v.v, st) ELSE Fail("unsup", K.f, i, st)
     ELSE IF kind = "" THEN Ok(i, NoneN, st)
     ELSE IF kind = "z" THEN
       IF \A k \in ia..(z0 - 1) : c[k] = "0" THEN Ok(el, IntN(0), st) ELSE Fail("py", K.f, i, st)
     ELSE IF kind = "d" THEN
       IF dc - ia > 9 THEN LET v == Ask("num", <<StrV(SubSeq(K.s, i, dc - 1))>>) IN IF v.ok THEN Ok(el, v.v, st) ELSE Fail("unsup", K.f, i, st) ELSE Ok(el, IntN(sg(ValOf(c, ia, dc - 1, 10))), st)
     ELSE IF kind = "x" THEN
       IF hx - ia > 9 \/ At(c, el) \in {"l", "L"} THEN Fail("unsup", K.f, i, st) ELSE Ok(el, IntN(sg(ValOf(c, ia + 2, hx - 1, 16))), st)
     ELSE IF kind = "b" THEN
       IF bn - ia > 30 THEN Fail("unsup", K.f, i, st) ELSE Ok(el, IntN(sg(ValOf(c, ia + 2, bn - 1, 2))), st)
     ELSE IF oc - ia > 11 THEN Fail("unsup", K.f, i, st) ELSE Ok(el, IntN(sg(ValOf(c, ia + 2, oc - 1, 8))), st)

AtomP(K, i, st) ==
  LET e == AtomEnd(K.c, i) IN
  IF e = i THEN Ok(i, NoneN, st) ELSE Ok(e, Atom(SubSeq(K.s, i, e - 1), K.f, i), st)

Var(reg, late, atom) == [t |-> "VAR", reg |-> reg, late |-> late, atom |-> atom]
RECURSIVE VarTail(_, _, _, _, _)
VarTail(K, i, st, reg, leg) ==
  IF ~StartsAt(K.s, i, "::") THEN Ok(i, Var(reg, FALSE, leg), st)
  ELSE LET a == AtomP(K, i + 2, st) IN
       IF a.n.t = "None" THEN Fail("syn", K.f, i + 2, st)
       ELSE VarTail(K, TLCEval(a.i), st, TLCEval(Append(reg, leg)), TLCEval(a.n))
Variable(K, i, st) ==
  IF At(K.c, i) = "&" THEN
    LET a == AtomP(K, i + 1, st) IN
    IF a.n.t = "None" THEN Fail("syn", K.f, i + 1, st) ELSE Ok(a.i, Var(<<>>, TRUE, a.n), st)
  ELSE LET a == AtomP(K, i, st) IN
    IF a.n.t = "None" THEN Ok(i, NoneN, st) ELSE VarTail(K, a.i, st, <<>>, a.n)

OpenSq(c, i) == IF At(c, i) = "[" THEN 1 ELSE IF At(c, i) = "\\" /\ At(c, i + 1) = "[" THEN 2 ELSE 0

(* ---- where a text ends: next index, or 0 if it does not end at i ---- *)
TextEnd(K, i, kind, dsq, dpt) ==
  LET c == K.c ch == At(c, i) IN
  CASE kind = "eof" -> IF i > Len(c) THEN i ELSE 0
    [] kind = "sq" -> IF ch = "]" /\ dsq = 0 THEN i + 1 ELSE 0
    [] kind = "pth" -> IF ch = ")" /\ dpt = 0 THEN i + 1 ELSE 0
    [] kind = "brace" -> IF ch = "}" THEN i + 1 ELSE 0
    [] kind = "eolsq" ->
         IF ch \notin EolSet THEN 0
         ELSE LET j == Skip(c, i + 1, SpaceSet) o == OpenSq(c, j) IN IF o = 0 THEN 0 ELSE j + o
    [] kind = "sqtag" ->
         LET o == OpenSq(c, i) IN
         IF o = 0 THEN 0
         ELSE LET g == Gap(c, i + o)
                  ae == IF At(c, g) = "\\" THEN AtomEnd(c, g + 1) ELSE 0
                  h == IF At(c, g) = "\\" THEN Gap(c, ae) ELSE g
              IN IF At(c, g) = "\\" /\ ae = g + 1 THEN 0
                 ELSE IF At(c, h) = ")" THEN i + o ELSE 0
    [] kind = "comma" ->
         IF ch = ";" /\ At(c, i + 1) = ";" THEN i + 2
         ELSE IF ch = "," /\ At(c, i + 1) = "," THEN i
         ELSE LET ae == IF ch = "\\" THEN AtomEnd(c, i + 1) ELSE 0
                  h == IF ch = "\\" THEN Gap(c, ae) ELSE i
              IN IF ch = "\\" /\ ae = i + 1 THEN 0
                 ELSE IF At(c, h) = ")" /\ dpt = 0 THEN i ELSE 0

TextSpecial == {"(", ")", "[", "]", "{", "}", ",", ";", "\\", "\"", "'", "/", "#", "\n", "\r"} \cup (KnownChars \ AnySet)
TextSpecialPy == TextSpecial \cup {"u", "U", "r", "R"}

(* indentation state after the characters i..j of a run without line ends *)
IndRun(K, ind, i, j) ==
  IF j < i \/ ind = "F" THEN ind
  ELSE IF Skip(K.c, i, SpaceSet) <= j THEN "F"
  ELSE IF ind = "N" THEN "N" ELSE ind \o SubSeq(K.s, i, j)

(* Comments the user asked to skip *)
Remark(K, i, st) ==
  LET c == K.c ch == At(c, i) IN
  IF st.cfg.skip = 1 /\ ch = "/" /\ At(c, i + 1) = "/" THEN
    LET j == Find(c, i + 2, EolSet) IN Ok(j, Node("REMARK", SubSeq(K.s, i, j - 1), K.f, i), st)
  ELSE IF st.cfg.skip = 1 /\ ch = "/" /\ At(c, i + 1) = "*" THEN
    LET j == IndexFrom(K.s, "*/", i + 2) IN
    IF j = 0 THEN Fail("syn", K.f, i, st) ELSE Ok(j + 2, Node("REMARK", SubSeq(K.s, i, j + 1), K.f, i), st)
  ELSE IF st.cfg.skip = 2 /\ ch = "#" THEN
    LET j == Find(c, i + 1, EolSet) IN Ok(j, Node("REMARK", SubSeq(K.s, i, j - 1), K.f, i), st)
  ELSE Ok(i, NoneN, st)

(* an optional closing tag such as \set *)
Tag(K, i, tag) == IF StartsAt(K.s, i, tag) THEN Gap(K.c, i + Len(tag)) ELSE i
CloseTag(K, i, tag, st, n) ==
  LET j == Tag(K, Gap(K.c, i), tag) IN
  IF At(K.c, j) # ")" THEN Fail("syn", K.f, j, st) ELSE Ok(j + 1, n, st)

RECURSIVE TextLoop(_, _, _, _, _, _, _, _, _), Form(_, _, _), Former(_, _, _), LForm(_, _, _), Lambda(_, _, _),
          Bounds(_, _, _, _, _), ListP(_, _, _), ListLoop(_, _, _, _), Application(_, _, _), Args(_, _, _, _),
          Binding(_, _, _), Names(_, _, _, _), SetP(_, _, _), LetP(_, _, _), Code(_, _, _), Infix(_, _, _),
          Emit(_, _, _), Macro(_, _, _), MacroPars(_, _, _, _), Import(_, _, _), ParseSource(_, _)

(* ParseText: kind says what ends the text *)
ParseText(K, i, kind, st) == TextLoop(K, i, kind, st, <<>>, 0, "N", 0, 0)
Flush(K, ast, pl, i, ind) == IF pl = 0 THEN ast ELSE Append(ast, Plain(SubSeq(K.s, pl, i - 1), ind, K.f, pl))

(* a construct that may start inside a text, NoneN if none does *)
Construct(K, i, st) ==
  LET c == K.c ch == c[i] nx == At(c, i + 1) IN
  IF ch = "(" THEN
    IF nx = "$" THEN
      IF StartsAt(K.s, i, "($set") THEN SetP(K, i, st)
      ELSE IF StartsAt(K.s, i, "($let") THEN LetP(K, i, st)
      ELSE IF StartsAt(K.s, i, "($import") THEN Import(K, i, st)
      ELSE IF StartsAt(K.s, i, "($macro") THEN Macro(K, i, st)
      ELSE IF StartsAt(K.s, i, "($!") THEN
        IF At(c, i + 3) = ")" THEN Ok(i + 4, [t |-> "COMMENT"], st)
        ELSE Raw(K, i + 3, st, LAMBDA x : [t |-> "COMMENT"])
      ELSE IF StartsAt(K.s, i, "($quote") THEN Quote(K, i, st)
      ELSE Application(K, i, st)
    ELSE IF nx = "`" THEN Quote(K, i, st)
    ELSE Ok(i, NoneN, st)
  ELSE LET q == IF ch \in {"'", "\"", "u", "U", "r", "R"} THEN Quote(K, i, st) ELSE Ok(i, NoneN, st) IN
       IF ~q.ok \/ q.n.t # "None" THEN q
       ELSE IF ch \in {"/", "#"} THEN Remark(K, i, st) ELSE q

TextLoop(K, i, kind, st, ast, pl, ind, dsq, dpt) ==
  LET c == K.c
      special == IF st.cfg.py THEN TextSpecialPy ELSE TextSpecial
      hasc == i <= Len(c) /\ c[i] \in special
      con == IF hasc THEN Construct(K, i, st) ELSE Ok(i, NoneN, st)
  IN
  IF ~con.ok THEN
    (* a failure without a place of its own is reported at the last place where the whole source stood *)
    IF kind = "eof" /\ con.m = "py" THEN
      LET own == SelectSeq(ast, LAMBDA x : x.t = "PLAIN" /\ x.f = K.f)
          last == IF pl # 0 THEN i - 1 ELSE IF own = <<>> THEN 1 ELSE own[Len(own)].p + Len(own[Len(own)].s) - 1
      IN [con EXCEPT !.m = "pyl", !.f = K.f, !.i = last]
    ELSE con
  ELSE IF con.n.t # "None" THEN
    LET a0 == Flush(K, ast, pl, i, ind)
        a1 == IF con.n.t = "TEXT" THEN a0 \o con.n.e ELSE Append(a0, con.n)
    IN TextLoop(K, TLCEval(con.i), kind, TLCEval(con.st), TLCEval(a1), 0, "N", dsq, dpt)
  ELSE
    LET e == TextEnd(K, i, kind, dsq, dpt) IN
    IF e # 0 THEN Ok(e, Text(Flush(K, ast, pl, i, ind)), st)
    ELSE IF i > Len(c) THEN Fail("eof", K.f, i, st)
    ELSE
      LET ind0 == IF pl # 0 THEN ind ELSE IF ast = <<>> THEN "S" ELSE "N"
          pl1 == IF pl # 0 THEN pl ELSE i
          ch == c[i]
      IN
      IF ch \notin AnySet THEN Fail("char", K.f, pl1, st)
      ELSE IF ~hasc THEN
        LET j == Find(c, i, special) IN
        TextLoop(K, j, kind, st, ast, pl1, TLCEval(IndRun(K, ind0, i, j - 1)), dsq, dpt)
      ELSE
        TextLoop(K, TLCEval(i + 1), kind, st, ast, pl1,
          IF ch \in EolSet THEN "S" ELSE "F",
          TLCEval(IF ch = "[" THEN dsq + 1 ELSE IF ch = "]" /\ dsq > 0 THEN dsq - 1 ELSE dsq),
          TLCEval(IF ch = "(" THEN dpt + 1 ELSE IF ch = ")" /\ dpt > 0 THEN dpt - 1 ELSE dpt))

(* ---- forms ---- *)
Form(K, i, st) ==
  LET a == Former(K, i, st) IN
  IF ~a.ok \/ a.n.t = "None" THEN a
  ELSE
    LET g == Gap(K.c, a.i) IN
    IF At(K.c, g) # "?" THEN Ok(g, a.n, a.st)
    ELSE
      LET b == Former(K, Gap(K.c, g + 1), a.st) IN
      IF ~b.ok THEN b
      ELSE IF b.n.t = "None" THEN Fail("syn", K.f, b.i, st)
      ELSE
        LET h == Gap(K.c, b.i) IN
        IF At(K.c, h) # "|" THEN Ok(h, [t |-> "COND", c |-> b.n, l1 |-> a.n, l0 |-> NoneN], b.st)
        ELSE
          LET d == Form(K, Gap(K.c, h + 1), b.st) IN
          IF ~d.ok THEN d
          ELSE IF d.n.t = "None" THEN Fail("syn", K.f, d.i, st)
          ELSE Ok(d.i, [t |-> "COND", c |-> b.n, l1 |-> a.n, l0 |-> d.n], d.st)

Former(K, i, st) ==
  LET q == Quote(K, i, st) IN
  IF ~q.ok \/ q.n.t # "None" THEN q
  ELSE LET n == Number(K, i, st) IN
  IF ~n.ok \/ n.n.t # "None" THEN n
  ELSE LET v == Variable(K, i, st) IN
  IF ~v.ok \/ v.n.t # "None" THEN v
  ELSE LET l == Lambda(K, i, st) IN
  IF ~l.ok \/ l.n.t # "None" THEN l
  ELSE LForm(K, i, st)

LForm(K, i, st) ==
  LET c1 == Code(K, i, st) IN
  IF ~c1.ok \/ c1.n.t # "None" THEN c1
  ELSE LET x == Infix(K, i, st) IN
  IF ~x.ok \/ x.n.t # "None" THEN x
  ELSE LET l == LetP(K, i, st) IN
  IF ~l.ok \/ l.n.t # "None" THEN l
  ELSE LET a == Application(K, i, st) IN
  IF ~a.ok \/ a.n.t # "None" THEN a
  ELSE ListP(K, i, st)

Code(K, i, st) ==
  LET c == K.c ch == At(c, i) IN
  IF ch = "]" THEN
    LET j == Skip(c, i + 1, SpaceSet) IN
    IF At(c, j) \in EolSet THEN ParseText(K, j + 1, "eolsq", st) ELSE ParseText(K, i + 1, "sqtag", st)
  ELSE IF ch = "[" THEN ParseText(K, i + 1, "sq", st)
  ELSE IF ch = "(" /\ StartsAt(K.s, i, "($code") THEN ParseText(K, i + 6, "pth", st)
  ELSE IF ch = "," /\ At(c, i + 1) = "," THEN ParseText(K, i + 2, "comma", st)
  ELSE Ok(i, NoneN, st)

Infix(K, i, st) ==
  LET ch == At(K.c, i)
      mk(r, p) == IF ~r.ok THEN r ELSE Ok(r.i, [t |-> "INFIX", a |-> r.n, f |-> K.f, p |-> p], r.st)
  IN IF ch = "{" THEN mk(ParseText(K, i + 1, "brace", st), i)
     ELSE IF ch = "(" /\ StartsAt(K.s, i, "(${}") THEN mk(ParseText(K, i + 4, "pth", st), i + 1)
     ELSE Ok(i, NoneN, st)

ListP(K, i, st) == IF At(K.c, i) # "(" THEN Ok(i, NoneN, st) ELSE ListLoop(K, Gap(K.c, i + 1), st, <<>>)
ListLoop(K, i, st, e) ==
  IF At(K.c, i) = ")" THEN Ok(i + 1, List(e), st)
  ELSE
    LET emb == At(K.c, i) = "*"
        j == IF emb THEN Gap(K.c, i + 1) ELSE i
        r == Form(K, j, st)
    IN IF ~r.ok THEN r
       ELSE IF r.n.t = "None" THEN Fail("syn", K.f, j, st)
       ELSE ListLoop(K, TLCEval(Gap(K.c, r.i)), TLCEval(r.st), TLCEval(Append(e, IF emb THEN [t |-> "EMBED", a |-> r.n] ELSE r.n)))

(* ---- lambda ---- *)
Lambda(K, i, st) ==
  IF At(K.c, i) # "\\" THEN Ok(i, NoneN, st)
  ELSE IF At(K.c, i + 1) = "(" THEN
    LET v == Variable(K, Gap(K.c, i + 2), st) IN
    IF ~v.ok THEN v
    ELSE IF v.n.t = "None" THEN Fail("syn", K.f, v.i, st)
    ELSE LET g == Gap(K.c, v.i) IN
      IF ~StartsAt(K.s, g, ").") THEN Fail("syn", K.f, g, st)
      ELSE LET b == LForm(K, Gap(K.c, g + 2), st) IN
        IF ~b.ok THEN b
        ELSE IF b.n.t = "None" THEN Fail("syn", K.f, Gap(K.c, g + 2), st)
        ELSE Ok(b.i, [t |-> "LAMBDA", bv |-> v.n, bound |-> <<>>, form |-> b.n], b.st)
  ELSE Bounds(K, i, st, <<>>, <<>>)
Bounds(K, i, st, bound, late) ==
  IF At(K.c, i) # "\\" THEN
    LET b == LForm(K, i, st) IN
    IF ~b.ok THEN b
    ELSE IF b.n.t = "None" THEN Fail("syn", K.f, i, st)
    ELSE Ok(b.i, [t |-> "LAMBDA", bv |-> NoneN, bound |-> bound, form |-> b.n], b.st)
  ELSE IF StartsAt(K.s, i + 1, "...") THEN
    IF late # <<>> THEN Fail("syn", K.f, i, st)
    ELSE Bounds(K, TLCEval(Gap(K.c, i + 4)), st, TLCEval(Append(bound, [late |-> <<>>, v |-> "...", d |-> NoneN])), late)
  ELSE
    LET a == AtomP(K, i + 1, st) IN
    IF a.n.t = "None" THEN Fail("syn", K.f, i + 1, st)
    ELSE
      LET d == IF At(K.c, a.i) = ":" THEN Form(K, a.i + 1, st) ELSE Ok(a.i, NoneN, st) IN
      IF ~d.ok THEN d
      ELSE IF At(K.c, a.i) = ":" /\ d.n.t = "None" THEN Fail("syn", K.f, a.i + 1, st)
      ELSE IF At(K.c, d.i) # "." THEN Fail("syn", K.f, d.i, st)
      ELSE IF At(K.c, d.i + 1) = "." THEN
        Bounds(K, TLCEval(Gap(K.c, d.i + 2)), TLCEval(d.st), bound, TLCEval(Append(late, a.n.s)))
      ELSE
        Bounds(K, TLCEval(Gap(K.c, d.i + 1)), TLCEval(d.st), TLCEval(Append(bound, [late |-> late, v |-> a.n.s, d |-> d.n])), <<>>)

(* ---- application ---- *)
Apply(fn, args, named, f, p) == [t |-> "APPLY", fn |-> fn, args |-> args, named |-> named, f |-> f, p |-> p]
Application(K, i, st) ==
  IF ~(At(K.c, i) = "(" /\ At(K.c, i + 1) = "$") THEN Ok(i, NoneN, st)
  ELSE IF StartsAt(K.s, i, "($quote") THEN Ok(i, NoneN, st)
  ELSE IF StartsAt(K.s, i, "($code") THEN Code(K, i, st)
  ELSE IF StartsAt(K.s, i, "($emit") THEN Emit(K, i, st)
  ELSE IF StartsAt(K.s, i, "(${}") THEN Infix(K, i, st)
  ELSE
    LET ev == At(K.c, i + 2) = "$"
        j == Gap(K.c, IF ev THEN i + 3 ELSE i + 2)
        fn == Form(K, j, st)
    IN IF ~fn.ok THEN fn
       ELSE IF fn.n.t = "None" THEN Fail("syn", K.f, j, st)
       ELSE
         LET r == Args(K, fn.i, fn.st, [fn |-> IF fn.n.t = "VAR" THEN fn.n.atom.s ELSE "", args |-> <<>>, named |-> <<>>]) IN
         IF ~r.ok THEN r
         ELSE
           LET a == Apply(fn.n, r.n.args, r.n.named, K.f, i + 1) IN
           Ok(r.i, IF ev THEN [t |-> "EVAL", a |-> a, dn |-> "<string>", df |-> K.f, dp |-> i + 2, call |-> NoneN] ELSE a, r.st)
(* arguments up to the closing parenthesis *)
Args(K, i0, st, acc) ==
  LET i == Gap(K.c, i0)
      nm == IF At(K.c, i) = "\\" THEN AtomP(K, i + 1, st) ELSE Ok(i, NoneN, st)
      isname == nm.n.t # "None" /\ At(K.c, Gap(K.c, nm.i)) # "."
      close(j) == LET g == Gap(K.c, j) IN IF At(K.c, g) = ")" THEN Ok(g + 1, acc, st) ELSE Fail("syn", K.f, g, st)
  IN
  IF isname THEN
    IF nm.n.s = acc.fn THEN close(nm.i)
    ELSE
      LET g == Gap(K.c, nm.i) r == Form(K, g, st) IN
      IF ~r.ok THEN r
      ELSE IF r.n.t = "None" THEN Fail("syn", K.f, g, st)
      ELSE Args(K, TLCEval(r.i), TLCEval(r.st), TLCEval([acc EXCEPT !.named = Append(@, <<nm.n, r.n>>)]))
  ELSE
    LET emb == At(K.c, i) = "*"
        j == IF emb THEN Gap(K.c, i + 1) ELSE i
        r == Form(K, j, st)
    IN IF ~r.ok THEN r
       ELSE IF r.n.t = "None" THEN IF emb THEN Fail("syn", K.f, j, st) ELSE close(j)
       ELSE Args(K, TLCEval(r.i), TLCEval(r.st),
              TLCEval([acc EXCEPT !.args = Append(@, IF emb THEN [t |-> "EMBED", a |-> r.n] ELSE r.n)]))

(* ---- definitions ---- *)
Names(K, i, st, q) ==
  LET a == AtomP(K, i, st) IN
  IF a.n.t = "None" THEN Fail("syn", K.f, i, st)
  ELSE LET g == Gap(K.c, a.i) IN
    IF At(K.c, g) = ")" THEN Ok(g + 1, Append(q, a.n), st)
    ELSE Names(K, g, st, TLCEval(Append(q, a.n)))
(* n: [lv |-> names, multi |-> a list of names was given, a |-> form] *)
Binding(K, i, st) ==
  LET multi == At(K.c, i) = "("
      l == IF multi THEN Names(K, Gap(K.c, i + 1), st, <<>>) ELSE AtomP(K, i, st)
  IN IF ~l.ok THEN l
     ELSE IF ~multi /\ l.n.t = "None" THEN Fail("syn", K.f, i, st)
     ELSE LET g == Gap(K.c, l.i) r == Form(K, g, st) IN
       IF ~r.ok THEN r
       ELSE IF r.n.t = "None" THEN Fail("syn", K.f, g, st)
       ELSE Ok(r.i, [t |-> "BIND", lv |-> IF multi THEN l.n ELSE <<l.n>>, multi |-> multi, a |-> r.n], r.st)
SetP(K, i, st) ==
  LET b == Binding(K, Gap(K.c, i + 5), st) IN
  IF ~b.ok THEN b
  ELSE CloseTag(K, b.i, "\\set", b.st, [t |-> "SET", lv |-> b.n.lv, multi |-> b.n.multi, a |-> b.n.a])
LetP(K, i, st) ==
  IF ~StartsAt(K.s, i, "($let") THEN Ok(i, NoneN, st)
  ELSE
    LET b == Binding(K, Gap(K.c, i + 5), st) IN
    IF ~b.ok THEN b
    ELSE LET g == Gap(K.c, b.i) r == Form(K, g, b.st) IN
      IF ~r.ok THEN r
      ELSE IF r.n.t = "None" THEN Fail("syn", K.f, g, st)
      ELSE CloseTag(K, r.i, "\\let", r.st, [t |-> "LET", lv |-> b.n.lv, multi |-> b.n.multi, a |-> b.n.a, form |-> r.n])
Emit(K, i, st) ==
  LET g == Gap(K.c, i + 6) v == Variable(K, g, st) IN
  IF ~v.ok THEN v
  ELSE IF v.n.t = "None" THEN Fail("syn", K.f, g, st)
  ELSE LET h == Gap(K.c, v.i)
           (* the closing mark is no function of a parameter *)
           r == IF StartsAt(K.s, h, "\\emit") /\ At(K.c, Gap(K.c, h + 5)) = ")" THEN Ok(h, NoneN, st) ELSE Form(K, h, st) IN
    IF ~r.ok THEN r
    ELSE CloseTag(K, r.i, "\\emit", r.st, [t |-> "EMIT", v |-> v.n, a |-> r.n])
MacroPars(K, i, st, q) ==
  IF At(K.c, i) = ")" THEN Ok(i + 1, q, st)
  ELSE LET a == AtomP(K, i, st) IN
    IF a.n.t = "None" THEN Fail("syn", K.f, i, st)
    ELSE MacroPars(K, TLCEval(Gap(K.c, a.i)), st, TLCEval(Append(q, a.n.s)))
Macro(K, i, st) ==
  LET a == AtomP(K, Gap(K.c, i + 7), st) IN
  IF a.n.t = "None" THEN Fail("syn", K.f, Gap(K.c, i + 7), st)
  ELSE LET g == Gap(K.c, a.i) IN
    IF At(K.c, g) # "(" THEN Fail("syn", K.f, g, st)
    ELSE LET p == MacroPars(K, Gap(K.c, g + 1), st, <<>>)
             mk(x) == [t |-> "MACRO", name |-> a.n, pars |-> p.n, s |-> x]
         IN IF ~p.ok THEN p
            ELSE IF At(K.c, p.i) = ")" THEN Ok(p.i + 1, mk(""), st)
            ELSE Raw(K, p.i, st, mk)

(* ---- import ---- *)
(* the library directory: its path and its files *)
LibJson == JsonDeserialize(IOEnv.LIB)
Lib == [dir |-> LibJson.dir, files |-> [n \in {LibJson.files[k][1] : k \in 1..Len(LibJson.files)} |-> LibJson.files[CHOOSE k \in 1..Len(LibJson.files) : LibJson.files[k][1] = n][2]]]
LibDir == Lib.dir
LibFiles == Lib.files
Src(f, s) == [f |-> f, s |-> s, c |-> Chars(s)]
(* the text of an import that gives an expression: its value, read as a source *)
ImportExpr(x, st) ==
  IF \E k \in 1..Len(x.a.e) : x.a.e[k].t \notin {"PLAIN", "STR", "REMARK"} THEN Fail("unsup", x.f, x.p, st)
  ELSE
    LET code == JoinStr([k \in 1..Len(x.a.e) |-> x.a.e[k].s])
        v == ValueOf(LStripSet(code, SpaceSet))
    IN IF ~v.ok THEN (IF v.m = "unsup" THEN Fail("unsup", x.f, x.p, st) ELSE Fail("type", x.f, x.p, st))
       ELSE
         LET id == ToString(st.inc)
             K == TLCEval(Src(id, v.v))
         IN LET r == ParseSource(K, [st EXCEPT !.inc = @ + 1,
                       !.src = (id :> [s |-> K.s, decl |-> code, mac |-> TRUE, df |-> x.f, dp |-> x.p, call |-> NoneN]) @@ @])
            IN IF ~r.ok THEN r ELSE Ok(0, r.n, r.st)
(* the file an import names: the working directory, then the directories in order; "" if there is none *)
Locate(lib, st) ==
  IF Resolved(lib) \in DOMAIN st.cfg.files THEN lib
  ELSE LET d == SelectSeq(st.cfg.dirs, LAMBDA x : Resolved(PathJoin(x, lib)) \in DOMAIN st.cfg.files) IN
       IF d = <<>> THEN "" ELSE PathJoin(d[1], lib)
(* the libraries are read once: the tree of one does not depend on what is there already *)
NoSrc == [s |-> "", decl |-> "", mac |-> FALSE, df |-> "", dp |-> 0, call |-> NoneN]
SrcOf(lib, K, path) == lib :> [NoSrc EXCEPT !.s = K.s, !.decl = path]
LibNames == {"stdlib.yu", "h.yu", "h-light.yu", "hlib.yu", "coroutine.yu", "coroutine-h.yu", "coroutine-py.yu", "corolib.yu"}
LibTree(lib, py) ==
  LET path == PathJoin(LibDir, lib)
      K == TLCEval(Src(lib, UnifyEol(LibFiles[path])))
      r == ParseSource(K, [cfg |-> [py |-> py, skip |-> 0, files |-> LibFiles, dirs |-> <<LibDir>>, input |-> "", trees |-> FALSE], inc |-> 0, scr |-> <<>>, src |-> SrcOf(lib, K, path), shrink |-> 0])
      q == SetToSeq(DOMAIN r.st.src)
  IN TLCEval([ok |-> r.ok, n |-> r.n, src |-> [k \in 1..Len(q) |-> <<q[k], r.st.src[q[k]].s, r.st.src[q[k]].decl>>]])
(* computed by MC_Lib *)
LibTrees == JsonDeserialize(IOEnv.LIBTREES)
SrcEntries(q) == [n \in {q[k][1] : k \in 1..Len(q)} |-> LET x == q[CHOOSE k \in 1..Len(q) : q[k][1] = n] IN [NoSrc EXCEPT !.s = x[2], !.decl = x[3]]]
ImportLib(lib, once, st, f, p) ==
  IF once /\ lib \in DOMAIN st.src THEN Ok(0, Text(<<>>), st)
  ELSE LET path == Locate(lib, st) IN
    IF path = "" THEN Fail(IF f = "" THEN "noloc" ELSE "syn", f, p, st)
    ELSE IF st.cfg.trees /\ lib \in LibNames /\ st.cfg.skip = 0 /\ ~st.cfg.py /\ Resolved(path) = PathJoin(LibDir, lib)
            /\ LET x == LibTrees[lib] IN
               x.ok /\ \A k \in 1..Len(x.src) : LET n == x.src[k][1] IN (n = lib \/ n \notin DOMAIN st.src) /\ Resolved(Locate(n, st)) = PathJoin(LibDir, n)
         THEN LET x == LibTrees[lib] IN
              Ok(0, Text(IF x.n.e = <<>> THEN <<>> ELSE <<[t |-> "IMPB"]>> \o x.n.e \o <<[t |-> "IMPE"]>>),
                 [st EXCEPT !.src = [SrcEntries(x.src) EXCEPT ![lib].decl = path] @@ @])
    ELSE LET K == TLCEval(Src(lib, UnifyEol(st.cfg.files[Resolved(path)])))
             r == ParseSource(K, [st EXCEPT !.src = SrcOf(lib, K, path) @@ @])
         IN IF ~r.ok THEN r
            ELSE Ok(0, Text(IF r.n.e = <<>> THEN <<>> ELSE <<[t |-> "IMPB"]>> \o r.n.e \o <<[t |-> "IMPE"]>>), r.st)
(* a script: the names it defines become built-in functions and constants; it is read once *)
ImportScript(lib, st, f, p) ==
  IF \E k \in 1..Len(st.scr) : st.scr[k].lib = lib THEN Ok(0, Text(<<>>), st)
  ELSE LET path == Locate(lib, st) IN
    IF path = "" THEN Fail(IF f = "" THEN "noloc" ELSE "type", f, p, st)
    ELSE LET s == st.cfg.files[Resolved(path)]
             v == IF AsciiOnly(s) THEN Ask("script", <<StrV(s)>>) ELSE VErr("unsup")
         IN IF ~v.ok THEN (IF v.m = "unsup" THEN Fail("unsup", f, p, st) ELSE Fail(IF f = "" THEN "noloc" ELSE "type", f, p, st))
            ELSE Ok(0, Text(<<>>), [st EXCEPT !.scr = Append(@, [lib |-> lib, s |-> s, fns |-> {v.v.e[1].e[k].s : k \in 1..Len(v.v.e[1].e)}, vals |-> {v.v.e[2].e[k].s : k \in 1..Len(v.v.e[2].e)}])])
(* the script a name comes from, the last one that defines it; 0 if none does *)
ScriptOf(a, st) == LET J == {k \in 1..Len(st.scr) : a \in st.scr[k].fns \cup st.scr[k].vals} IN IF J = {} THEN 0 ELSE CHOOSE k \in J : \A j \in J : j <= k
Import(K, i, st) ==
  LET g == Gap(K.c, i + 8)
      a == AtomP(K, g, st)
      q == Quote(K, g, st)
      imp == IF a.n.t # "None" THEN [r |-> ImportLib(a.n.s \o ".yu", TRUE, st, K.f, a.n.p), i |-> a.i]
             ELSE IF ~q.ok THEN [r |-> q, i |-> 0]
             ELSE IF q.n.t # "None" THEN
               LET u == UnqLit(q.n.s) IN
               [r |-> IF ~u.ok THEN Fail("unsup", K.f, g, st)
                      ELSE IF LowerStr(Ext(Basename(u.v))) = ".py" THEN ImportScript(u.v, st, q.n.f, q.n.p)
                      ELSE ImportLib(u.v, FALSE, st, q.n.f, q.n.p), i |-> q.i]
             ELSE LET x == Infix(K, g, st) IN
               IF ~x.ok THEN [r |-> x, i |-> 0]
               ELSE IF x.n.t = "None" THEN [r |-> Fail("syn", K.f, g, st), i |-> 0]
               ELSE [r |-> ImportExpr(x.n, x.st), i |-> x.i]
  IN IF FALSE THEN Fail("syn", K.f, g, st)
     ELSE IF ~imp.r.ok THEN imp.r
     ELSE LET x == Gap(K.c, imp.i) IN CloseTag(K, x, "\\import", imp.r.st, imp.r.n)

(* ---- the header of a Python source ---- *)
WordSet == Letters \cup Digits
CodecTail == WordSet \cup {"-"}
(* in a comment s: where "yupp" stands after "coding:" or "coding=" and whether an encoding follows it *)
CodingAt(s) ==
  LET low == LowerStr(s)
      c == Chars(s)
      at(j) == Skip(c, j + 7, SpaceSet)
      fits(j) ==
        /\ StartsAt(low, j, "coding") /\ At(c, j + 6) \in {":", "="} /\ StartsAt(low, at(j), "yupp")
        /\ At(c, at(j) + 4) \notin WordSet
      enc(j) == At(c, at(j) + 4) = "." /\ At(c, at(j) + 5) \in CodecTail
      J == {j \in 1..Len(s) : fits(j)}
  IN IF J = {} THEN [ok |-> FALSE, y |-> 0, enc |-> FALSE]
     ELSE LET j == CHOOSE j \in J : \A k \in J : j <= k IN [ok |-> TRUE, y |-> at(j), enc |-> enc(j)]
RECURSIVE HeaderPy(_, _, _, _)
(* [i |-> where the text goes on, h |-> nodes, shrink, ok] *)
HeaderPy(K, i, left, h) ==
  LET a == Skip(K.c, i, SpaceSet)
      e == Find(K.c, a, EolSet)
      leg == SubSeq(K.s, a, e - 1)
      m == CodingAt(leg)
      no == [ok |-> FALSE, i |-> 1, h |-> <<>>, shrink |-> 0, un |-> FALSE]
  IN IF left = 0 \/ At(K.c, a) # "#" THEN no
     ELSE IF ~AsciiOnly(leg) THEN [no EXCEPT !.un = TRUE]
     ELSE IF m.ok THEN
       [ok |-> TRUE, i |-> e, shrink |-> 3 - left, un |-> FALSE,
        h |-> IF m.enc THEN h \o <<Node("REMARK", SubSeq(leg, 1, m.y - 1), K.f, a), Node("REMARK", SubSeq(leg, m.y + 5, Len(leg)), K.f, a + m.y + 4)>> ELSE h]
     ELSE IF e > Len(K.c) THEN no
     ELSE HeaderPy(K, e + 1, left - 1, h \o <<Node("REMARK", leg, K.f, a), Node("REMARK", SubSeq(K.s, e, e), K.f, e)>>)
HeaderOf(K) ==
  LET a == Skip(K.c, 1, SpaceSet) IN
  IF At(K.c, a) \in EolSet THEN HeaderPy(K, a + 1, 1, <<>>) ELSE HeaderPy(K, a, 2, <<>>)

(* a whole source *)
ParseSource(K, st) ==
  IF K.s = "" THEN Ok(1, Text(<<>>), st)
  ELSE IF ~(st.cfg.py /\ K.f = st.cfg.input) THEN ParseText(K, 1, "eof", st)
  ELSE
    LET h == HeaderOf(K) IN
    IF h.un THEN Fail("unsup", K.f, 1, st)
    ELSE
      LET r == ParseText(K, h.i, "eof", [st EXCEPT !.shrink = h.shrink]) IN
      IF ~r.ok \/ r.n.e = <<>> THEN r ELSE [r EXCEPT !.n = Text(h.h \o r.n.e)]
=============================================================================
