-------------------------------- MODULE YHist ------------------------------
(* A history: commands one after another over one file system, and the laws  *)
(* every command obeys.                                                      *)
(*   <<"write", n, s>> <<"rm", n>> <<"touch", n, t>>  the user edits         *)
(*   <<"cli", args...>>            the command line tool                     *)
(*   <<"main", entry, args...>>    the same as a process of its own          *)
(*   <<"repl", input, args...>>    the same with something on standard input *)
(*   <<"proc_file", n>> <<"proc_stream", n>>  the package interface          *)
(*   <<"lookup", name>>            the encoding of a name                    *)
(*   <<"codec", n, name, how>>     a source read in an encoding              *)
(*   <<"python", n>>               a source run by Python                    *)
EXTENDS YCodec
CliKinds == {"cli", "main", "repl"}
ProcKinds == {"proc_file", "proc_stream"}
CodecKinds == {"codec", "python"}
ArgsOf(cmd) == IF cmd[1] = "cli" THEN Tail(cmd) ELSE SubSeq(cmd, 3, Len(cmd))
StdinOf(cmd) == IF cmd[1] = "repl" THEN cmd[2] ELSE ""
(* what a command does: [k, fs, r], r the result of Cli or Process *)
Exec(fs, dirs, cmd, clock) ==
  LET a == Tail(cmd) IN
  CASE cmd[1] = "lookup" -> LET l == LookupName(a[1]) IN [k |-> IF l.k = "unsup" THEN "unsup" ELSE "done", fs |-> fs, r |-> l]
    [] cmd[1] \in CodecKinds ->
         LET n == NormPath(a[1]) IN
         IF n \notin DOMAIN fs THEN [k |-> "unsup", fs |-> fs, r |-> ""]
         ELSE LET r == IF cmd[1] = "codec" THEN ReadSource(fs, dirs, a[1], LookupName(a[2]).base, a[3], clock) ELSE RunSource(fs, dirs, a[1], clock) IN [k |-> r.k, fs |-> r.fs, r |-> r]
    [] cmd[1] = "write" -> [k |-> "done", fs |-> FPut(fs, a[1], File(a[2], FALSE, clock)), r |-> ""]
    [] cmd[1] = "rm" -> [k |-> "done", fs |-> FRemove(fs, a[1]), r |-> ""]
    [] cmd[1] = "touch" -> [k |-> "done", fs |-> IF a[1] \in DOMAIN fs THEN [fs EXCEPT ![a[1]].t = a[2]] ELSE fs, r |-> ""]
    [] cmd[1] \in CliKinds -> LET r == Cli(fs, dirs, ArgsOf(cmd), StdinOf(cmd), <<>>, clock) IN [k |-> r.k, fs |-> r.fs, r |-> r]
    [] cmd[1] \in ProcKinds ->
         LET n == NormPath(a[1]) IN
         IF n \notin DOMAIN fs \/ Bad(fs[n].s) THEN
           [k |-> "done", fs |-> fs, r |-> [k |-> "done", ok |-> FALSE, fs |-> fs, out |-> "", s |-> "", shrink |-> 0, ran |-> FALSE, loc |-> ""]]
         ELSE LET r == Process(fs, dirs, a[1], fs[n].s, <<>>, clock) IN [k |-> r.k, fs |-> r.fs, r |-> r]

(* ---- laws ---- *)
Changed(a, b) == {n \in DOMAIN a \cup DOMAIN b : n \notin DOMAIN a \/ n \notin DOMAIN b \/ a[n] # b[n]}
(* the files a run may write or remove: outputs, their backups and maps, syntax trees *)
MayWrite(log) == UNION {LET n == log[j].out IN IF n = "" THEN {} ELSE IF log[j].m = "ast" THEN {n} ELSE IF log[j].ok THEN {n, Bak(n), Tmp(n), n \o ".json"} ELSE IF log[j].m = "io" THEN {Tmp(n)} ELSE {} : j \in 1..Len(log)}
Once(log, n) == Cardinality({j \in 1..Len(log) : log[j].out = n}) = 1
LastOf(log, n) == LET J == {j \in 1..Len(log) : log[j].ok /\ log[j].out = n} IN CHOOSE j \in J : \A i \in J : i <= j
Outputs(log) == {log[j].out : j \in {j \in 1..Len(log) : log[j].ok}}
(* "" or the law that is broken *)
CliLaw(fs, dirs, cmd, r, clock) ==
  LET a == Options(ArgsOf(cmd), fs)
      o == a.o
      log == r.log
      failed == {j \in 1..Len(log) : ~log[j].ok}
      (* a file counts once, however many passages it has: its last passage decides *)
      nfailed == Cardinality(failed)
      one(f, fn) == Cli(f, dirs, SelectSeq(ArgsOf(cmd), LAMBDA x : x \notin {o.files[j] : j \in 1..Len(o.files)}) \o <<fn>>, "", <<>>, clock)
  IN
  IF a.k = "bad" THEN (IF r.rc = 2 /\ r.fs = fs THEN "" ELSE "a refused command line does nothing")
  ELSE IF r.rc # 4 * nfailed THEN "status"
  ELSE IF ~(Changed(fs, r.fs) \subseteq MayWrite(log)) THEN "other files are left alone"
  ELSE IF \E n \in DOMAIN r.fs : EndsWith(n, ".tmp") /\ n \notin DOMAIN fs THEN "nothing is left over"
  ELSE IF \E n \in Outputs(log) : n \notin DOMAIN r.fs \/ r.fs[n].s # log[LastOf(log, n)].s \/ r.fs[n].ro # o.ro THEN "the output is the whole result"
  ELSE IF \E n \in Outputs(log) : Once(log, n) /\ n \in DOMAIN fs /\ (Bak(n) \notin DOMAIN r.fs \/ r.fs[Bak(n)].s # fs[n].s) THEN "the previous output is the backup"
  ELSE IF \E n \in Outputs(log) : Once(log, n) /\ n \notin DOMAIN fs /\ (Bak(n) \in DOMAIN fs) # (Bak(n) \in DOMAIN r.fs) THEN "an old backup stays"
  ELSE IF Len(o.files) > 1 /\ o.text = "" /\ a.k = "ok" /\ Len(ArgsOf(cmd)) > 1 THEN
    (* the files of a run one by one *)
    LET z == FoldLeft(LAMBDA b, fn : LET x == one(b.fs, fn) IN [fs |-> x.fs, rc |-> b.rc + x.rc, log |-> b.log \o x.log], [fs |-> fs, rc |-> 0, log |-> <<>>], o.files)
    IN IF z.fs # r.fs \/ z.rc # r.rc \/ z.log # log THEN "files of a run do not influence each other" ELSE ""
  ELSE ""
ProcLaw(fs, dirs, cmd, r, clock) ==
  LET n == NormPath(cmd[2]) c == ConfOf(fs, cmd[2]) IN
  IF n \notin DOMAIN fs THEN ""
  ELSE IF r.ok /\ ~r.ran THEN
    (IF r.fs # fs THEN "a reused output is not written"
     ELSE IF fs[r.out].t <= fs[n].t THEN "an outdated output is not reused"
     ELSE IF \E j \in 1..Len(c.o.deps) : NormPath(c.o.deps[j]) \notin DOMAIN fs \/ fs[NormPath(c.o.deps[j])].t >= fs[r.out].t THEN "an outdated output is not reused"
     ELSE IF c.o.force THEN "force"
     ELSE IF r.s # fs[r.out].s THEN "the text is that of the output" ELSE "")
  ELSE IF r.ok THEN
    (IF r.out \notin DOMAIN r.fs \/ r.fs[r.out].s # r.s THEN "the text is that of the output"
     ELSE IF ~(Changed(fs, r.fs) \subseteq {r.out, Bak(r.out), Tmp(r.out), r.out \o ".json"}) THEN "other files are left alone"
     ELSE IF r.out \in DOMAIN fs /\ (Bak(r.out) \notin DOMAIN r.fs \/ r.fs[Bak(r.out)].s # fs[r.out].s) THEN "the previous output is the backup"
     (* processed again at once, an output named by the rule is fresh unless forced or a dependency is missing *)
     ELSE LET again == Process(r.fs, dirs, cmd[2], fs[n].s, <<>>, clock + 1)
              name == NormPath(OutputName(cmd[2], ""))
              c2 == ConfOf(r.fs, cmd[2])
          IN IF r.out = name /\ fs[n].t < clock /\ ~c2.o.force /\ (\A j \in 1..Len(c2.o.deps) : NormPath(c2.o.deps[j]) \in DOMAIN r.fs /\ r.fs[NormPath(c2.o.deps[j])].t < clock) /\ again.ran
             THEN "an up-to-date output is reused" ELSE "")
  ELSE IF ~(Changed(fs, r.fs) \subseteq {n2 \in DOMAIN r.fs : EndsWith(n2, ".ast")}) THEN "a failure leaves the output alone"
  ELSE ""
Decl(fs, n, cmd) ==
  LET t == DecodedAs(fs[n].s, LookupName(cmd[3]).base).v.s
      q == SourceLines(t)
  IN [n |-> DeclOf(t).n, first |-> IF q = <<>> THEN "" ELSE q[1]]
(* the interactive loop writes nothing *)
LawOf(fs, dirs, cmd, x, clock) ==
  LET n0 == IF Len(cmd) > 1 THEN NormPath(cmd[2]) ELSE "" IN
  IF x.k # "done" THEN ""
  ELSE IF cmd[1] \in ProcKinds THEN ProcLaw(fs, dirs, cmd, x.r, clock)
  ELSE IF cmd[1] \in CodecKinds THEN
    (LET p == ProcLaw(fs, dirs, cmd, x.r, clock) IN
     IF p # "" THEN p
     ELSE IF x.r.data \notin {"", x.r.s} THEN "what is read is the expansion or nothing"
     ELSE IF x.r.data # "" /\ (x.r.out \notin DOMAIN x.fs \/ x.fs[x.r.out].s # x.r.data) THEN "what is read is the generated file"
     ELSE IF x.r.ran /\ x.r.ok /\ LookupName(DeclOf(x.r.s).name).k \in {"yupp", "none"} THEN "nothing of the declaration is left"
     ELSE IF x.r.ran /\ x.r.ok /\ cmd[1] = "codec" /\ Decl(fs, n0, cmd).n = 2 /\ StartsWith(Decl(fs, n0, cmd).first, "#!") /\ ~StartsWith(x.r.s, Decl(fs, n0, cmd).first) THEN "the first line is left"
     ELSE "")
  ELSE IF cmd[1] \in CliKinds THEN
    (IF Options(ArgsOf(cmd), fs).k = "ok" /\ Options(ArgsOf(cmd), fs).o.files = <<>> THEN (IF x.fs = fs /\ x.r.rc = 0 THEN "" ELSE "the loop writes nothing")
     ELSE CliLaw(fs, dirs, cmd, x.r, clock))
  ELSE ""
=============================================================================
