------------------------------ MODULE MC_Enum ------------------------------
(* Programs derived from a grammar, exhaustively up to a budget of rules.    *)
(* A grammar derives pairs of texts in step, vA and vB:                      *)
(*   law "equiv"    both mean the same: equal results of translation         *)
(*   law "denotes"  the translation of vA is the text vB                     *)
(*   law "refused"  vA is refused                                            *)
(*   law "spaces"   trimming and reduction change nothing but white space    *)
(*   law "browse"   making a map changes nothing but white space at ends      *)
(*   law "none"     no claim but conformance                                 *)
(* Each derivation step is a transition, the law is an invariant, and every  *)
(* complete pair is printed, to be replayed into the real preprocessor.      *)
(* items: [t |-> "s", a, b: parts]  text, a part is [s, k]: a string, or the *)
(*                                  text captured under the number k > 0     *)
(*        [t |-> "n", n]            nonterminal                              *)
(*        [t |-> "b", k] [t |-> "e", k, h]  begin and end of a capture,      *)
(*                                  hidden: the text is taken away           *)
EXTENDS YRun
Grams == JsonDeserialize(IOEnv.GRAM)
VARIABLES vG, vA, vB, vTodo, vCaps, vLeft, vRes
vars == <<vG, vA, vB, vTodo, vCaps, vLeft, vRes>>

Part(p, caps, side) == IF p.k = 0 THEN p.s ELSE caps[p.k][side]
Parts(q, caps, side) == JoinStr([j \in 1..Len(q) |-> Part(q[j], caps, side)])
RECURSIVE Advance(_, _, _, _)
(* up to the next nonterminal *)
Advance(a, b, todo, caps) ==
  IF todo = <<>> \/ todo[1].t = "n" THEN [a |-> a, b |-> b, todo |-> todo, caps |-> IF todo = <<>> THEN <<>> ELSE caps]
  ELSE LET x == todo[1] r == Tail(todo) IN
    CASE x.t = "s" -> Advance(a \o Parts(x.a, caps, 1), b \o Parts(x.b, caps, 2), r, caps)
      [] x.t = "b" -> Advance(a, b, r, (x.k :> <<Len(a), Len(b)>>) @@ caps)
      [] x.t = "e" ->
           LET s == caps[x.k]
               ta == SubSeq(a, s[1] + 1, Len(a))
               tb == SubSeq(b, s[2] + 1, Len(b))
           IN Advance(IF x.h THEN SubSeq(a, 1, s[1]) ELSE a, IF x.h THEN SubSeq(b, 1, s[2]) ELSE b, r, (x.k :> <<ta, tb>>) @@ caps)

Gram == Grams[vG]
Init ==
  /\ vG \in 1..Len(Grams) /\ vRes = "" /\ vLeft = Gram.budget
  /\ LET m == Advance("", "", Gram.start, <<>>) IN vA = m.a /\ vB = m.b /\ vTodo = m.todo /\ vCaps = m.caps
Expand ==
  /\ vTodo # <<>> /\ vG' = vG
  /\ \E j \in 1..Len(Gram.rules[vTodo[1].n]) :
       LET r == Gram.rules[vTodo[1].n][j]
           m == Advance(vA, vB, r.r \o Tail(vTodo), vCaps)
       IN /\ r.c <= vLeft
          /\ vLeft' = (IF m.todo = <<>> THEN 0 ELSE vLeft - r.c) /\ vA' = m.a /\ vB' = m.b /\ vTodo' = m.todo /\ vCaps' = m.caps /\ vRes' = vRes

ECfg == CfgOf([n \in {Gram.files[k][1] : k \in 1..Len(Gram.files)} |-> File(Gram.files[CHOOSE k \in 1..Len(Gram.files) : Gram.files[k][1] = n][2], FALSE, 1)],
              [Opts0 EXCEPT !.skip = Gram.skip, !.trim = Gram.trim, !.reduce = Gram.reduce], Gram.name, OutputName(Gram.name, ""), 0, <<>>)
Dec(s) == Replace(s, Gram.code, Gram.nonascii)
MeansBy(s, cfg) == LET r == Translate(Dec(s), TLCEval(cfg), Basename(OutputName(Gram.name, ""))) IN
  CASE r.k = "out" -> [k |-> "out", s |-> r.s] [] r.k = "err" -> [k |-> "err", s |-> ""] [] OTHER -> [k |-> r.k, s |-> ""]
Means(s) == MeansBy(s, ECfg)
Bare == [ECfg EXCEPT !.trim = FALSE, !.reduce = FALSE]
NoSpace(s) == LET c == Chars(s) IN JoinStr(SelectSeq(c, LAMBDA x : x \notin {" ", "\t", "\n", "\r", "\f"}))
Judge ==
  /\ vTodo = <<>> /\ vRes = "" /\ vLeft' = vLeft
  /\ LET x == TLCEval(Means(vA)) IN
     vRes' = (IF x.k = "unsup" \/ Gram.law = "none" THEN x.k
              ELSE IF Gram.law = "denotes" THEN (IF x = [k |-> "out", s |-> Dec(vB)] THEN "ok" ELSE "broken")
              ELSE IF Gram.law = "spaces" THEN
               LET y == TLCEval(MeansBy(vA, Bare)) IN
               IF y.k = "unsup" THEN "unsup" ELSE IF x.k = y.k /\ NoSpace(x.s) = NoSpace(y.s) THEN x.k ELSE "broken"
              ELSE IF Gram.law = "browse" THEN
               LET y == TLCEval(MeansBy(vA, [ECfg EXCEPT !.browse = TRUE])) IN
               IF y.k = "unsup" THEN "unsup" ELSE IF x.k = y.k /\ Visible(x.s) = Visible(y.s) THEN x.k ELSE "broken"
              ELSE IF Gram.law = "refused" THEN (IF x.k = "err" THEN "ok" ELSE "broken")
              ELSE LET y == TLCEval(Means(vB)) IN IF y.k = "unsup" THEN "unsup" ELSE IF x = y THEN x.k ELSE "broken")
  /\ UNCHANGED <<vG, vA, vB, vTodo, vCaps>>
Next == Expand \/ Judge
Law == vRes # "broken"
Report == vRes = "" \/ PrintT(<<"P", vG, vRes, ToJson(<<vA, vB>>)>>)
=============================================================================
