------------------------------- MODULE YCoro -------------------------------
(* Coroutines as the libraries document them. A coroutine is a body of       *)
(* statements with code run whenever it is entered and whenever it is left;  *)
(* a call runs it from where it stopped last to where it stops next.         *)
(*                                                                           *)
(* Statements: <<"act", n>>, <<"set", v>>, <<"yield">>, <<"wait">> (until    *)
(* x > 0), <<"waitnot">>, <<"acq">>, <<"rel">>, <<"loop", n, body>>,         *)
(* <<"if", body>> (when x > 0), <<"waitco", c>>, <<"quit">>, <<"restart">>.  *)
(* What is left to be done is a sequence of statements: a loop is its body   *)
(* and one turn less; <<"over">> stands for a coroutine that has ended.      *)
EXTENDS Integers, Sequences, TLC
ready == 0
WAIT == 1
YIELD == 2
END == 3
(* st: k - what is left of each coroutine, x and s - the shared variables, log - what happened, status - of the last stop *)
Say(st, w) == [st EXCEPT !.log = Append(@, w)]
Stop(pr, c, k, status, st) == [(IF pr.exit[c] THEN Say(st, <<"leave", c>>) ELSE st) EXCEPT !.k[c] = k, !.status = status]
RECURSIVE Go(_, _, _, _)
Call(pr, c, st) == Go(pr, c, st.k[c], IF pr.enter[c] THEN Say(st, <<"enter", c>>) ELSE st)
Go(pr, c, k, st) ==
  IF k = <<>> THEN Stop(pr, c, <<<<"over">>>>, END, st)
  ELSE LET t == Head(k)
           r == Tail(k)
       IN CASE t[1] = "over" -> Stop(pr, c, k, END, st)
            [] t[1] = "act" -> Go(pr, c, r, Say(st, <<"act", t[2]>>))
            [] t[1] = "set" -> Go(pr, c, r, [st EXCEPT !.x = t[2]])
            [] t[1] = "yield" -> Stop(pr, c, r, YIELD, st)
            [] t[1] = "wait" -> IF st.x > 0 THEN Go(pr, c, r, st) ELSE Stop(pr, c, k, WAIT, st)
            [] t[1] = "waitnot" -> IF ~(st.x > 0) THEN Go(pr, c, r, st) ELSE Stop(pr, c, k, WAIT, st)
            [] t[1] = "acq" -> IF st.s > 0 THEN Go(pr, c, r, [st EXCEPT !.s = @ - 1]) ELSE Stop(pr, c, k, WAIT, st)
            [] t[1] = "rel" -> Go(pr, c, r, [st EXCEPT !.s = @ + 1])
            [] t[1] = "loop" -> Go(pr, c, IF t[2] = 0 THEN r ELSE t[3] \o <<<<"loop", t[2] - 1, t[3]>>>> \o r, st)
            [] t[1] = "if" -> Go(pr, c, IF st.x > 0 THEN t[2] \o r ELSE r, st)
            [] t[1] = "waitco" -> LET q == Call(pr, t[2], st) IN IF q.status = END THEN Go(pr, c, r, q) ELSE Stop(pr, c, k, WAIT, q)
            [] t[1] = "quit" -> Stop(pr, c, <<<<"over">>>>, END, st)
            [] t[1] = "restart" -> Stop(pr, c, pr.body[c], YIELD, st)
Start(pr) == [k |-> pr.body, x |-> 0, s |-> 1, log |-> <<>>, status |-> ready]

(* ---- laws ---- *)
(* the acts of a body run without stops, as far as they do not depend on the shared variables *)
RECURSIVE Flat(_)
Flat(k) == IF k = <<>> THEN <<>>
           ELSE LET t == Head(k) r == Flat(Tail(k)) IN
                CASE t[1] = "act" -> <<t[2]>> \o r
                  [] t[1] = "loop" -> IF t[2] = 0 THEN r ELSE Flat(t[3]) \o Flat(<<<<"loop", t[2] - 1, t[3]>>>>) \o r
                  [] OTHER -> r
RECURSIVE Has(_, _)
Has(k, n) == \E j \in 1..Len(k) : k[j][1] \in n \/ (k[j][1] = "loop" /\ Has(k[j][3], n)) \/ (k[j][1] = "if" /\ Has(k[j][2], n))
RECURSIVE Acts(_)
Acts(k) == UNION {CASE k[j][1] = "act" -> {k[j][2]} [] k[j][1] = "loop" -> Acts(k[j][3]) [] k[j][1] = "if" -> Acts(k[j][2]) [] OTHER -> {} : j \in 1..Len(k)}
Of(log, A) == LET q == SelectSeq(log, LAMBDA e : e[1] = "act" /\ e[2] \in A) IN [j \in 1..Len(q) |-> q[j][2]]
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
(* stops change nothing but the time: what a coroutine did is the beginning of what its body does without them *)
Slices(pr, st, c) ==
  LET b == pr.body[c] IN
  Has(b, {"if", "quit", "restart"}) \/ (/\ Prefix(Of(st.log, Acts(b)), Flat(b))
                                       /\ st.k[c] = <<<<"over">>>> => Of(st.log, Acts(b)) = Flat(b))
(* entered and left equally often, by turns *)
Count(log, e) == Len(SelectSeq(log, LAMBDA q : q = e))
Paired(pr, st, c) == (pr.enter[c] /\ pr.exit[c]) => Count(st.log, <<"enter", c>>) = Count(st.log, <<"leave", c>>)
(* the semaphore is never below zero *)
Free(st) == st.s >= 0
(* what has ended stays ended, and does nothing more *)
Ended(before, after, c) == before.k[c] = <<<<"over">>>> => after.k[c] = <<<<"over">>>>
=============================================================================
