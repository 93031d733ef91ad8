------------------------------ MODULE MC_Crash -----------------------------
(* The writing of an output, operation by operation: it may be stopped or    *)
(* fail anywhere, leave a part of a text behind and be started again.        *)
EXTENDS YCrash
CONSTANTS MaxTries
N == "a.c"
VARIABLES fs, start, plan, phase, text, opt, tries, known
vars == <<fs, start, plan, phase, text, opt, tries, known>>
(* known: texts that were the whole of an output some time *)
F(s) == {File(s, TRUE, 1), File(s, FALSE, 1)}
Some(n, X) == {<<>>} \cup {n :> f : f \in X}
Starts == {a @@ b @@ c @@ d @@ ("other" :> File("other", TRUE, 1)) :
            a \in Some(N, F("old") \cup F("new1")), b \in Some(Bak(N), F("older")), c \in Some(Tmp(N), F("left")), d \in Some(N \o ".json", F("map"))}
Log == <<[ok |-> TRUE, fn |-> "a.c.yu", out |-> N, s |-> text, loc |-> "", m |-> ""]>>
Init ==
  /\ start \in Starts /\ fs = start /\ text = "new1" /\ tries = 1 /\ phase = "run"
  /\ opt \in {[Opts0 EXCEPT !.ro = r, !.browse = b] : r \in BOOLEAN, b \in BOOLEAN}
  /\ plan = Publish(start, opt, N, text)
  /\ known = {"new1"} \cup (IF N \in DOMAIN start THEN {start[N].s} ELSE {})
Op == phase = "run" /\ plan # <<>> /\ fs' = Do(fs, Head(plan), 2) /\ plan' = Tail(plan) /\ UNCHANGED <<start, phase, text, opt, tries, known>>
Done == phase = "run" /\ plan = <<>> /\ phase' = "done" /\ UNCHANGED <<fs, start, plan, text, opt, tries, known>>
Kill == phase = "run" /\ plan # <<>> /\ phase' = "killed" /\ UNCHANGED <<fs, start, plan, text, opt, tries, known>>
Tear == phase = "run" /\ plan # <<>> /\ Head(plan).k = "write" /\ fs' = Do(fs, [Head(plan) EXCEPT !.s = "part"], 2) /\ phase' = "killed" /\ UNCHANGED <<start, plan, text, opt, tries, known>>
(* an operation fails: the file that was to become the output is removed *)
Fails2 == phase = "run" /\ plan # <<>> /\ phase' = "failed" /\ fs' = FRemove(fs, Tmp(N)) /\ UNCHANGED <<start, plan, text, opt, tries, known>>
(* started again, perhaps with another text *)
Again ==
  /\ phase \in {"killed", "failed", "done"} /\ tries < MaxTries
  /\ \E s \in {text, "new" \o ToString(tries + 1)} :
       /\ text' = s /\ start' = fs /\ plan' = Publish(fs, opt, N, s) /\ known' = known \cup {s}
  /\ tries' = tries + 1 /\ phase' = "run" /\ UNCHANGED <<fs, opt>>
Next == Op \/ Done \/ Kill \/ Tear \/ Fails2 \/ Again
NeverPart == N \in DOMAIN fs => fs[N].s \in known
Survives == CrashLaw(start, Log, fs) = ""
Complete == phase = "done" => N \in DOMAIN fs /\ fs[N].s = text /\ fs[N].ro = opt.ro /\ Tmp(N) \notin DOMAIN fs /\ (opt.browse => N \o ".json" \in DOMAIN fs)
BackedUp == phase = "done" /\ N \in DOMAIN start => Bak(N) \in DOMAIN fs /\ fs[Bak(N)].s = start[N].s
(* nothing that once was the output is lost before something newer is complete *)
Last2 == N \in DOMAIN start => fs["other"] = start["other"]
NoneLost == (\E s \in known : N \in DOMAIN start /\ start[N].s = s) => \E n \in {N, Bak(N)} : n \in DOMAIN fs /\ fs[n].s \in known
=============================================================================
