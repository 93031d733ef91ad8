------------------------------- MODULE YCrash ------------------------------
(* What a run that is stopped, or one of whose operations on files fails,    *)
(* may leave behind.                                                         *)
EXTENDS YHist
Texts3(fs, n) == IF n \in DOMAIN fs THEN {fs[n].s} ELSE {}
NewTexts(log, n) == {log[j].s : j \in {j \in 1..Len(log) : log[j].ok /\ log[j].out = n}}
OneText(log, n) == Cardinality({j \in 1..Len(log) : log[j].ok /\ log[j].out = n}) = 1
OfOutput(log, m) == \E j \in 1..Len(log) : log[j].out # "" /\ StartsWith(m, log[j].out)
(* fs: before; log: of the run had it not been stopped; after: the files left, name -> [s, ro]; "" or what is broken *)
CrashLaw(fs, log, after) ==
  LET O == Outputs(log)
      mine == UNION {{n, Bak(n), Tmp(n), n \o ".json"} : n \in O} \cup {log[j].out : j \in {j \in 1..Len(log) : log[j].m \in {"ast", "astio"}}} \cup {Tmp(log[j].out) : j \in {j \in 1..Len(log) : log[j].m = "io"}}
  IN IF \E n \in O : n \in DOMAIN after /\ after[n].s \notin Texts3(fs, n) \cup NewTexts(log, n) THEN "the output holds neither the old text nor the new"
     ELSE IF \E n \in O : n \in DOMAIN fs /\ OneText(log, n) /\ fs[n].s \notin Texts3(after, n) \cup Texts3(after, Bak(n)) THEN "the old text is lost"
     ELSE IF \E n \in O : Bak(n) \in DOMAIN after /\ Bak(n) \notin O /\ after[Bak(n)].s \notin Texts3(fs, Bak(n)) \cup Texts3(fs, n) \cup NewTexts(log, n) THEN "the backup holds part of a text"
     ELSE IF \E m \in DOMAIN fs \ mine : m \notin DOMAIN after \/ after[m].s # fs[m].s \/ after[m].ro # fs[m].ro THEN "another file was touched"
     ELSE IF \E m \in DOMAIN after \ (DOMAIN fs \cup mine) : ~OfOutput(log, m) THEN "another file was made"
     ELSE ""
LogOf(cmd, x) == IF cmd[1] \in CliKinds THEN x.r.log ELSE <<[ok |-> x.r.ok, fn |-> cmd[2], out |-> x.r.out, s |-> x.r.s, loc |-> "", m |-> IF x.r.ok \/ ~x.r.ran THEN "" ELSE "io"]>>
=============================================================================
