------------------------------- MODULE MC_Hist ------------------------------
(* Every history of a bounded length over an alphabet of commands, with the  *)
(* laws of YHist as an invariant; the histories are printed to be replayed.  *)
(* A scenario is [files, mkdirs, cmds, depth, mode, args]; in mode "repl" the *)
(* commands are lines of the interactive loop started with args.             *)
EXTENDS YHist
Scens == JsonDeserialize(IOEnv.HIST)
VARIABLES vS, vTrail, vFs, vLaw
vars == <<vS, vTrail, vFs, vLaw>>
Scen == Scens[vS]
ToSet1(q) == {q[k] : k \in 1..Len(q)}
StartFs(cs) == LET q == cs.files IN
  [n \in {q[k][1] : k \in 1..Len(q)} |-> LET x == q[CHOOSE k \in 1..Len(q) : q[k][1] = n] IN File(x[2], x[3], x[4])]
Init == vS \in 1..Len(Scens) /\ vTrail = <<>> /\ vFs = StartFs(Scens[vS]) /\ vLaw = ""
(* lines of the interactive loop, one after another: what is printed for them depends on the lines since the last *)
(* evaluation only, and what has been printed stays                                                              *)
Lines(trail) == [j \in 1..Len(trail) |-> Scen.cmds[trail[j]][1]]
Entered(lines) == FoldLeft(LAMBDA a, l : a \o l \o "\n", "", lines)
LastLine(lines, x) == LET J == {j \in 1..Len(lines) : Strip(lines[j]) = x} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A i \in J : i <= j
ReplState(lines) == Cli(vFs, ToSet1(Scen.mkdirs), Scen.args, Entered(lines), <<>>, 1000)
ReplLaw(before, lines) ==
  LET x == ReplState(lines)
      y == ReplState(before)
      k == LastLine(before, "test")
      z == ReplState(SubSeq(lines, k + 1, Len(lines)))
      intro == ReplState(<<>>)
      cut(s) == SubSeq(s, 1, Len(s) - 1)
  IN IF x.k # "done" \/ y.k # "done" \/ z.k # "done" THEN "unsup"
     ELSE IF x.fs # vFs \/ x.rc # 0 THEN "the loop writes nothing"
     ELSE IF LastLine(before, "exit") # 0 THEN (IF x.out = y.out THEN "" ELSE "exit ends the loop")
     ELSE IF ~StartsWith(x.out, cut(y.out)) THEN "what is printed stays"
     ELSE IF Strip(lines[Len(lines)]) = "test" /\ ~EndsWith(x.out, SubSeq(z.out, Len(cut(ReplState(SubSeq(before, k + 1, Len(before))).out)) + 1, Len(z.out))) THEN "an evaluation starts fresh"
     ELSE ""
StepOf(j) ==
  IF Scen.mode = "repl" THEN [k |-> "done", fs |-> vFs, law |-> ReplLaw(Lines(vTrail), Append(Lines(vTrail), Scen.cmds[j][1]))]
  ELSE LET clock == 1000 + Len(vTrail)
           x == TLCEval(Exec(vFs, ToSet1(Scen.mkdirs), Scen.cmds[j], clock))
       IN [k |-> x.k, fs |-> IF x.k = "unsup" THEN <<>> ELSE x.fs, law |-> IF x.k = "unsup" THEN "unsup" ELSE LawOf(vFs, ToSet1(Scen.mkdirs), Scen.cmds[j], x, clock)]
Next ==
  /\ Len(vTrail) < Scen.depth /\ vLaw = ""
  /\ \E j \in 1..Len(Scen.cmds) :
       LET x == TLCEval(StepOf(j)) IN
       vS' = vS /\ vTrail' = Append(vTrail, j) /\ vFs' = x.fs /\ vLaw' = x.law
Law == vLaw \in {"", "unsup"}
Report == (vLaw = "" /\ Len(vTrail) < Scen.depth) \/ PrintT(<<"H", vS, IF vLaw = "" THEN "ok" ELSE vLaw, ToJson(vTrail)>>)
=============================================================================
