------------------------------- MODULE MC_Run ------------------------------
(* Conformance: recorded histories of the real preprocessor, checked against *)
(* the specification command by command.                                     *)
(* A case is [files, mkdirs, cmds, obs]; the specification starts from the   *)
(* same files, takes the same commands as its transitions, and every         *)
(* observation must be what the specification allows.                        *)
EXTENDS YCrash
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES vCase, vCmd, vFs, verdict, exp
vars == <<vCase, vCmd, vFs, verdict, exp>>
Case == Cases[vCase]
ToSet1(q) == {q[k] : k \in 1..Len(q)}
StartFs(cs) == LET q == cs.files IN
  [n \in {q[k][1] : k \in 1..Len(q)} |-> LET x == q[CHOOSE k \in 1..Len(q) : q[k][1] = n] IN File(x[2], x[3], x[4])]
Dirs == ToSet1(Case.mkdirs)

(* ---- what was observed and what was expected ---- *)
TreeDiff(want, got) ==
  LET W == DOMAIN want
      G == {got[k][1] : k \in 1..Len(got)}
      g(n) == got[CHOOSE k \in 1..Len(got) : got[k][1] = n]
  IN IF W # G THEN "files: " \o ToString(W) \o " expected"
     ELSE LET B == {n \in W : (want[n].s # Wild /\ g(n)[2] # want[n].s) \/ g(n)[3] # want[n].ro} IN
          IF B = {} THEN "" ELSE LET n == CHOOSE n \in B : TRUE IN "file " \o n \o ": " \o ToJson(want[n])
Fails(log) == Len(SelectSeq(log, LAMBDA x : ~x.ok))
(* a result that is not text and cannot be saved is two failures of one file *)
Errors(log) == Fails(log) + Len(SelectSeq(log, LAMBDA x : x.m = "astio"))
Locs(log) == LET q == SelectSeq(log, LAMBDA x : x.loc # "") IN [k \in 1..Len(q) |-> q[k].loc]
HasWild(log) == \E k \in 1..Len(log) : log[k].s = Wild

(* the maps of the outputs; every map has to be one, the marks are judged in cases that ask for it *)
KnownFile(f) == NormPath(f) \in DOMAIN vFs \/ f \in DOMAIN LibFiles
TextOf(f) == UnifyEol(IF NormPath(f) \in DOMAIN vFs THEN vFs[NormPath(f)].s ELSE LibFiles[f])
Texts == LET S == {n \in DOMAIN vFs : ~Bad(vFs[n].s)} IN [k \in 1..Cardinality(S) |-> UnifyEol(vFs[SetToSeq(S)[k]].s)]
(* files of the map of output n that cannot be its sources: a file that says nothing about importing is the only one *)
Strangers(log, n, m) ==
  LET J == {j \in 1..Len(log) : log[j].ok /\ log[j].out = n}
      S == {NormPath(log[j].fn) : j \in J}
  IN IF \E j \in J : NormPath(log[j].fn) \notin DOMAIN vFs \/ IndexFrom(vFs[NormPath(log[j].fn)].s, "import", 1) # 0 THEN {}
     ELSE {f \in 1..Len(m.files) : NormPath(m.files[f]) \notin S}
MapsBad(log, fs, maps) ==
  LET outs == {n \in {log[j].out : j \in {j \in 1..Len(log) : log[j].ok}} : n \o ".json" \in DOMAIN fs}
      one(n) ==
        LET J == {k \in 1..Len(maps) : maps[k].n = n \o ".json"} IN
        IF J = {} THEN "no map of " \o n
        ELSE LET m == maps[CHOOSE k \in J : TRUE]
                 s == Shape(m, fs[n].s, KnownFile, TextOf)
             IN IF ~m.ok THEN "the map is not one"
                ELSE IF s # "" THEN s
                ELSE IF Strangers(log, n, m) # {} THEN "the map has a file that is no source of " \o n
                ELSE IF Case.marks THEN Marks(m, fs[n].s, TextOf, Texts) ELSE ""
      B == {n \in outs : one(n) # ""}
  IN IF B = {} THEN "" ELSE one(CHOOSE n \in B : TRUE)

CheckCli(r, o, args) ==
  LET bad == r.rc = 2 /\ r.log = <<>>
      d == TreeDiff(r.fs, o.tree) IN
  IF o.exc # (IF bad THEN "SystemExit" ELSE "") THEN "exception " \o o.exc
  ELSE IF o.rc # r.rc THEN "status " \o ToString(r.rc) \o " expected"
  ELSE IF d # "" THEN d
  ELSE IF bad THEN ""
  ELSE IF Options(args, vFs).o.browse /\ MapsBad(r.log, r.fs, o.maps) # "" THEN MapsBad(r.log, r.fs, o.maps)
  ELSE IF o.lv <= 4 /\ o.errs # Errors(r.log) + Len(r.errs) THEN ToString(Errors(r.log) + Len(r.errs)) \o " error records expected"
  ELSE IF o.lv <= 4 /\ o.locs # SelectSeq(r.errs, LAMBDA x : x # "") \o Locs(r.log) THEN "location: " \o ToJson(r.errs \o Locs(r.log))
  ELSE IF o.cmp /\ (HasWild(r.log) => ~Options(args, vFs).o.type) /\ o.rest # r.out THEN "printed: " \o ToJson(r.out)
  ELSE ""
CheckProc(r, o, stream) ==
  LET d == TreeDiff(r.fs, o.tree) IN
  IF o.exc # "" THEN "exception " \o o.exc
  ELSE IF o.ok # r.ok THEN "result " \o ToString(r.ok) \o " expected"
  ELSE IF d # "" THEN d
  ELSE IF r.ok /\ NormPath(o.name) # r.out THEN "output name " \o r.out \o " expected"
  ELSE IF stream /\ r.ok /\ (o.data # r.s) THEN "data: " \o ToJson(r.s)
  ELSE IF stream /\ r.ok /\ o.shrink # r.shrink THEN "shrink " \o ToString(r.shrink) \o " expected"
  ELSE IF o.lv <= 4 /\ ~r.ok /\ o.locs # (IF r.loc = "" THEN <<>> ELSE <<r.loc>>) THEN "location: " \o ToJson(r.loc)
  ELSE ""

CheckLookup(l, name, o) ==
  LET a == KnownCodec(l.base)
      b == KnownCodec(name)
      want == IF l.k = "yupp" THEN <<"yupp", a.v.e[2].s>> ELSE IF l.k = "none" \/ ~b.ok THEN <<"", "">> ELSE <<b.v.e[1].s, b.v.e[2].s>>
  IN IF o.exc # "" THEN "exception " \o o.exc
     ELSE IF <<o.name, o.data>> # want THEN "encoding: " \o ToJson(want) ELSE ""
CheckCodec(r, o) ==
  LET d == TreeDiff(r.fs, o.tree) IN
  IF o.exc # "" THEN "exception " \o o.exc
  ELSE IF d # "" THEN d
  ELSE IF o.data # r.data THEN "read: " \o ToJson(r.data)
  ELSE IF r.ok /\ (NormPath(o.name) # r.out \/ o.shrink # r.lines) THEN "traceback in " \o r.out \o " moved by " \o ToString(r.lines) \o " expected"
  ELSE IF r.data = "" /\ ~(r.ok /\ r.s = "") /\ ~o.ok THEN "nothing is told"
  ELSE ""
CheckPython(r, o) ==
  LET d == TreeDiff(r.fs, o.tree) IN
  IF d # "" THEN d
  ELSE IF o.rc # r.run[1].v THEN "status " \o ToString(r.run[1].v) \o " expected"
  ELSE IF r.data = "" THEN (IF (r.ok /\ r.s = "") \/ o.ok THEN "" ELSE "nothing is told")
  ELSE IF o.data # r.run[2].s THEN "printed: " \o ToJson(r.run[2].s)
  ELSE IF o.rest # r.run[3].s THEN "traceback: " \o ToJson(r.run[3].s)
  ELSE ""

Clock == 1000 + vCmd
(* a run that was stopped: the files it left are where the history goes on *)
Left(tree) == [n \in {tree[k][1] : k \in 1..Len(tree)} |->
  LET x == tree[CHOOSE k \in 1..Len(tree) : tree[k][1] = n] IN
  File(x[2], x[3], IF n \in DOMAIN vFs /\ vFs[n].s = x[2] THEN vFs[n].t ELSE Clock)]
JudgeCrash(cmd, o) ==
  LET sub == SubSeq(cmd, 4, Len(cmd))
      x == Exec(vFs, Dirs, sub, Clock)
      after == Left(o.tree)
      log == LogOf(sub, x)
      law == CrashLaw(vFs, log, after)
      rc == IF sub[1] \in CliKinds THEN x.r.rc ELSE IF x.r.ok THEN 0 ELSE 4
      wanted == IF o.exc = "killed" THEN ""
                ELSE IF o.exc # "" THEN "exception " \o o.exc
                ELSE IF o.rc < rc \/ o.rc % 4 # 0 THEN "status " \o ToString(rc) \o " at least expected"
                ELSE IF o.rc = 0 /\ (\E n \in Outputs(log) : n \notin DOMAIN after \/ after[n].s # log[LastOf(log, n)].s) THEN "a success without the output"
                ELSE IF \E n \in DOMAIN after : EndsWith(n, ".tmp") /\ n \notin DOMAIN vFs THEN "a failure leaves something over"
                ELSE ""
  IN [k |-> x.k, fs |-> after, v |-> IF x.k # "done" THEN "" ELSE IF law # "" THEN law ELSE wanted]
Judge(cmd, o) ==
  IF cmd[1] = "crash" THEN JudgeCrash(cmd, o) ELSE
  LET x == Exec(vFs, Dirs, cmd, Clock) IN
  [k |-> x.k, fs |-> x.fs,
   v |-> IF x.k # "done" THEN ""
         ELSE CASE cmd[1] \in CliKinds -> CheckCli(x.r, o, ArgsOf(cmd))
                [] cmd[1] \in ProcKinds -> CheckProc(x.r, o, cmd[1] = "proc_stream")
                [] cmd[1] = "lookup" -> CheckLookup(x.r, cmd[2], o)
                [] cmd[1] = "codec" -> CheckCodec(x.r, o)
                [] cmd[1] = "python" -> CheckPython(x.r, o)
                [] OTHER -> ""]

Init == vCase \in 1..Len(Cases) /\ vCmd = 0 /\ vFs = StartFs(Cases[vCase]) /\ verdict = "run" /\ exp = ""
Next ==
  /\ verdict = "run" /\ vCmd < Len(Case.cmds)
  /\ vCase' = vCase /\ vCmd' = vCmd + 1
  /\ LET r == Judge(Case.cmds[vCmd + 1], Case.obs[vCmd + 1]) IN
       /\ vFs' = (IF r.k = "unsup" THEN <<>> ELSE r.fs)
       /\ verdict' = (IF r.k = "unsup" THEN "unsup" ELSE IF r.v # "" THEN "bad" ELSE IF vCmd + 1 = Len(Case.cmds) THEN "ok" ELSE "run")
       /\ exp' = r.v
Report == verdict \in {"run"} \/ PrintT(<<"V", vCase, vCmd, verdict, ToJson(exp)>>)
(* Conforms == verdict # "bad", reported case by case so that one run lists every disagreement *)
=============================================================================
