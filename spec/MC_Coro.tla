------------------------------- MODULE MC_Coro -------------------------------
(* Every schedule of a bounded length over two coroutines a, b and changes   *)
(* of x, for each of the programs given; the complete ones are printed with  *)
(* what happens, to be replayed by compiled expansions of the programs.      *)
EXTENDS YCoro, Json, IOUtils
Progs == JsonDeserialize(IOEnv.PROGS)
VARIABLES vP, vH, vSt, vOld
vars == <<vP, vH, vSt, vOld>>
P == Progs[vP]
Coros == DOMAIN P.body
Init == vP \in 1..Len(Progs) /\ vH = <<>> /\ vSt = Start(Progs[vP]) /\ vOld = Start(Progs[vP])
DoCall(c) ==
  LET q == TLCEval(Call(P, c, vSt)) IN
  vSt' = [q EXCEPT !.log = Append(@, <<"is", q.status>>)] /\ vH' = Append(vH, c)
DoSet(v) == vSt.x # v /\ (IF vH = <<>> THEN TRUE ELSE vH[Len(vH)] \notin {"0", "1"}) /\ vSt' = [vSt EXCEPT !.x = v] /\ vH' = Append(vH, IF v = 0 THEN "0" ELSE "1")
Next == Len(vH) < P.depth /\ vP' = vP /\ vOld' = vSt /\ ((\E c \in Coros : DoCall(c)) \/ \E v \in {0, 1} : DoSet(v))
Laws == \A c \in Coros : Slices(P, vSt, c) /\ Paired(P, vSt, c) /\ Free(vSt) /\ Ended(vOld, vSt, c)
Report == Len(vH) < P.depth \/ PrintT(<<"CO", vP, ToJson(vH), ToJson(vSt.log)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
