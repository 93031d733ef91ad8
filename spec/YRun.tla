-------------------------------- MODULE YRun -------------------------------
(* A run of the preprocessor over a file system.                             *)
(*                                                                           *)
(* fs    the files by name (relative to the working directory):              *)
(*         [s |-> text, ro |-> read-only, t |-> time of change]              *)
(*       s is Wild when the specification leaves the text open               *)
(* o     the options of an invocation, see Opts0                             *)
(* proc  what outlives an invocation in one process                          *)
(* An invocation takes the file system from one state to the next; Crash     *)
(* (module MC_Crash) stops it between two operations.                        *)
EXTENDS YLoc, YMap, IOUtils

Wild == "\n?\n"
File(s, ro, t) == [s |-> s, ro |-> ro, t |-> t]
Bad(s) == StartsWith(s, "<BIN>")
FRemove(fs, x) == [n \in DOMAIN fs \ {x} |-> fs[n]]
FPut(fs, n, f) == (n :> f) @@ fs
NormPath(p) == LET r == Resolved(p) IN IF r = "" THEN p ELSE r
DirsOf(fs) == {"", "."} \cup {Dirname(n) : n \in DOMAIN fs}
IsDir(fs, dirs, d) == d \in {"", "."} \/ d \in dirs \/ \E n \in DOMAIN fs : StartsWith(n, d \o "/")
CanWrite(fs, dirs, n) == n # "" /\ IsDir(fs, dirs, Dirname(n)) /\ (n \in DOMAIN fs \/ ~IsDir(fs, dirs, n)) /\ ~EndsWith(n, "/")

Opts0 == [quiet |-> FALSE, dirs |-> <<>>, outdir |-> "", ro |-> TRUE, skip |-> 0, trim |-> TRUE, reduce |-> TRUE, browse |-> FALSE,
          define |-> <<>>, type |-> FALSE, text |-> "", textsrc |-> "", files |-> <<>>, log |-> 1, trace |-> 0, tb |-> 1, force |-> FALSE, deps |-> <<>>]

(* ---- the command line ---- *)
FlagsOf == ("-q" :> <<"quiet", TRUE>>) @@ ("--quiet" :> <<"quiet", TRUE>>) @@ ("--no-read-only" :> <<"ro", FALSE>>)
  @@ ("--pp-no-trim-app-indent" :> <<"trim", FALSE>>) @@ ("--pp-trim-app-indent" :> <<"trim", TRUE>>)
  @@ ("--pp-no-reduce-emptiness" :> <<"reduce", FALSE>>) @@ ("--pp-reduce-emptiness" :> <<"reduce", TRUE>>)
  @@ ("--pp-no-browse" :> <<"browse", FALSE>>) @@ ("--pp-browse" :> <<"browse", TRUE>>)
  @@ ("--type-file" :> <<"type", TRUE>>)
IgnoredFlags == {"-Wno-unbound", "-Wunbound", "--warn-no-unbound-application", "--warn-unbound-application"}
StrOpts == ("-d" :> "dirs") @@ ("-o" :> "outdir") @@ ("--output" :> "outdir") @@ ("-D" :> "define") @@ ("--pp-define" :> "define")
  @@ ("-i" :> "text") @@ ("--input" :> "text") @@ ("--input-source" :> "textsrc")
IntOpts == ("--pp-skip-comments" :> <<"skip", 0, 3>>) @@ ("-l" :> <<"log", 1, 5>>) @@ ("--log" :> <<"log", 1, 5>>)
  @@ ("-t" :> <<"trace", 0, 3>>) @@ ("--trace" :> <<"trace", 0, 3>>) @@ ("-b" :> <<"tb", 0, 2>>) @@ ("--traceback" :> <<"tb", 0, 2>>)
RECURSIVE ParseArgs(_, _, _)
(* [k |-> "ok", o] | [k |-> "bad"] (the command line is refused) | [k |-> "unsup"] *)
ParseArgs(a, i, o) ==
  IF i > Len(a) THEN [k |-> "ok", o |-> o]
  ELSE LET x == a[i]
           eq == IF StartsWith(x, "--") THEN IndexFrom(x, "=", 1) ELSE 0
           name == IF eq # 0 THEN SubSeq(x, 1, eq - 1) ELSE x
           val == IF eq # 0 THEN SubSeq(x, eq + 1, Len(x)) ELSE IF i < Len(a) THEN a[i + 1] ELSE ""
           noval == eq = 0 /\ (i = Len(a) \/ (StartsWith(val, "-") /\ val # "-"))
           nx == IF eq # 0 THEN i + 1 ELSE i + 2
       IN
    IF x \in DOMAIN FlagsOf THEN ParseArgs(a, i + 1, [o EXCEPT ![FlagsOf[x][1]] = FlagsOf[x][2]])
    ELSE IF x \in IgnoredFlags THEN ParseArgs(a, i + 1, o)
    ELSE IF name \in DOMAIN StrOpts THEN
      (* a value that looks like an option is refused, one with a blank in it does not look like one *)
      IF noval /\ (i = Len(a) \/ IndexFrom(val, " ", 1) = 0) THEN [k |-> "bad", o |-> o]
      ELSE LET f == StrOpts[name] IN
        ParseArgs(a, nx, IF f \in {"dirs", "define"} THEN [o EXCEPT ![f] = Append(@, val)] ELSE [o EXCEPT ![f] = val])
    ELSE IF name \in DOMAIN IntOpts THEN
      IF noval THEN [k |-> "bad", o |-> o]
      ELSE IF val = "" \/ Skip(Chars(val), 1, Digits) <= Len(val) \/ Len(val) > 4 THEN [k |-> "bad", o |-> o]
      ELSE LET n == ValOf(Chars(val), 1, Len(val), 10) IN
        IF n < IntOpts[name][2] \/ n > IntOpts[name][3] THEN [k |-> "bad", o |-> o]
        ELSE ParseArgs(a, nx, [o EXCEPT ![IntOpts[name][1]] = n])
    ELSE IF x = "" \/ SubSeq(x, 1, 1) # "-" THEN ParseArgs(a, i + 1, [o EXCEPT !.files = Append(@, x)])
    ELSE IF x = "--no-such-option" THEN [k |-> "bad", o |-> o]
    ELSE [k |-> "unsup", o |-> o]
(* a single argument @FILE stands for the words of that file *)
Options(args, fs) ==
  IF Len(args) = 1 /\ StartsWith(args[1], "@") THEN
    LET f == SubSeq(args[1], 2, Len(args[1])) IN
    IF f \notin DOMAIN fs THEN [k |-> "bad", o |-> Opts0] ELSE ParseArgs(SplitWs(fs[f].s), 1, Opts0)
  ELSE ParseArgs(args, 1, Opts0)

(* ---- definitions of constants: NAME or NAME:VALUE ---- *)
DefOf(x) ==
  LET k == IndexFrom(x, ":", 1)
      n == Strip(IF k = 0 THEN x ELSE SubSeq(x, 1, k - 1))
      v == IF k = 0 THEN "" ELSE Strip(SubSeq(x, k + 1, Len(x)))
  IN [ok |-> n # "" /\ AtomEnd(Chars(n), 1) = Len(n) + 1, n |-> n, v |-> v]
Defs(defs0, q) ==
  FoldLeft(LAMBDA d, x : LET p == DefOf(x) IN IF p.ok THEN (p.n :> p.v) @@ d ELSE d, defs0, q)

(* ---- one translation ---- *)
FilesOf(fs) == [n \in {n \in DOMAIN fs : ~Bad(fs[n].s)} |-> fs[n].s] @@ LibFiles
Skip3(n, py) == IF n = 3 THEN (IF py THEN 2 ELSE 1) ELSE n
CfgOf(fs, o, fn, out, passage, defs) ==
  LET py == out # "" /\ IsPyOutput(out) IN
  [py |-> py, skip |-> Skip3(o.skip, py), trim |-> o.trim, reduce |-> o.reduce, browse |-> o.browse, files |-> FilesOf(fs), trees |-> TRUE,
   dirs |-> (IF fn = "" THEN <<>> ELSE <<Dirname(fn)>>) \o o.dirs \o <<LibDir>>,
   input |-> IF fn = "" THEN "<stdin>" ELSE Basename(fn), path |-> fn, module |-> ModuleName(fn), defs |-> defs, passage |-> passage]

(* ---- operations on the file system ---- *)
Do(fs, op, t) ==
  CASE op.k = "remove" -> FRemove(fs, op.n)
    [] op.k = "rename" -> FRemove(FPut(fs, op.to, fs[op.n]), op.n)
    [] op.k = "write" -> FPut(fs, op.n, File(op.s, op.n \in DOMAIN fs /\ fs[op.n].ro, t))
    [] op.k = "readonly" -> [fs EXCEPT ![op.n].ro = TRUE]
DoAll(fs, ops, t) == FoldLeft(LAMBDA a, op : Do(a, op, t), fs, ops)
Bak(n) == n \o ".bak"
Tmp(n) == n \o ".tmp"
(* what becomes of the output file n when its text is s: the new file is complete before it gets the name, *)
(* the previous one is kept as the backup                                                                   *)
Publish(fs, o, n, s) ==
  (IF Tmp(n) \in DOMAIN fs THEN <<[k |-> "remove", n |-> Tmp(n)]>> ELSE <<>>)
  \o <<[k |-> "write", n |-> Tmp(n), s |-> s]>>
  \o (IF o.ro THEN <<[k |-> "readonly", n |-> Tmp(n)]>> ELSE <<>>)
  \o (IF n \in DOMAIN fs /\ Bak(n) \in DOMAIN fs THEN <<[k |-> "remove", n |-> Bak(n)]>> ELSE <<>>)
  \o (IF n \in DOMAIN fs THEN <<[k |-> "rename", n |-> n, to |-> Bak(n)]>> ELSE <<>>)
  \o <<[k |-> "rename", n |-> Tmp(n), to |-> n]>>
  \o (IF o.browse THEN <<[k |-> "write", n |-> n \o ".json", s |-> Wild]>> ELSE <<>>)

(* result of a translation put into the file system: [k, ok, fs, out, s, rep, shrink] *)
Step(fs, dirs, o, fn, text, out0, passage, defs, t) ==
  LET r == Translate(text, TLCEval(CfgOf(fs, o, fn, out0, passage, defs)), Basename(out0))
      out == IF r.k = "out" /\ r.outset /\ r.out # "" THEN NormPath(r.out) ELSE NormPath(out0)
      ast == AstName(NormPath(out0))
      base == [k |-> "done", ok |-> FALSE, fs |-> fs, out |-> out, s |-> "", rep |-> FALSE, shrink |-> 0, loc |-> "", m |-> ""]
  IN CASE r.k = "unsup" -> [base EXCEPT !.k = "unsup"]
       [] r.k = "err" -> [base EXCEPT !.loc = ErrorLoc(r), !.m = r.m]
       [] r.k = "ast" ->
            IF ~CanWrite(fs, dirs, ast) THEN [base EXCEPT !.m = "astio"]
            ELSE [base EXCEPT !.fs = Do(fs, [k |-> "write", n |-> ast, s |-> Wild], t), !.m = "ast", !.out = ast, !.s = Wild, !.rep = r.rep]
       [] r.k = "out" ->
            (* the file that would become the output is removed again *)
            IF ~CanWrite(fs, dirs, out) THEN [base EXCEPT !.m = "io", !.fs = FRemove(fs, Tmp(out))]
            ELSE IF StartsWith(out, "/") \/ IndexFrom(out, "..", 1) # 0 THEN [base EXCEPT !.k = "unsup"]
            ELSE [base EXCEPT !.ok = TRUE, !.fs = DoAll(fs, Publish(fs, o, out, r.s), t), !.s = r.s, !.rep = r.rep, !.shrink = r.shrink]

(* a file named on the command line, passage after passage *)
RECURSIVE RunFile(_, _, _, _, _, _, _, _)
(* [k, ok, fs, log]: log has one entry per passage *)
RunFile(fs, dirs, o, fn, passage, defs, t, log) ==
  IF NormPath(fn) \notin DOMAIN fs \/ Bad(fs[NormPath(fn)].s) THEN
    [k |-> "done", ok |-> FALSE, fs |-> fs, log |-> Append(log, [ok |-> FALSE, fn |-> fn, out |-> "", s |-> "", loc |-> "", m |-> IF NormPath(fn) \in DOMAIN fs THEN "decode" ELSE "missing"])]
  ELSE
    LET r == Step(fs, dirs, o, fn, fs[NormPath(fn)].s, OutputName(fn, o.outdir), passage, defs, t)
        log1 == Append(log, [ok |-> r.ok, fn |-> fn, out |-> r.out, s |-> r.s, loc |-> r.loc, m |-> r.m])
    IN IF r.k = "unsup" \/ passage > 20 THEN [k |-> "unsup", ok |-> FALSE, fs |-> fs, log |-> log1]
       ELSE IF ~r.ok THEN [k |-> "done", ok |-> FALSE, fs |-> r.fs, log |-> log1]
       ELSE IF r.rep THEN RunFile(TLCEval(r.fs), dirs, o, fn, TLCEval(passage + 1), defs, t, TLCEval(log1))
       ELSE [k |-> "done", ok |-> TRUE, fs |-> r.fs, log |-> log1]

(* ---- standard input: the interactive loop ---- *)
(* test: the lines collected so far; out: what is printed *)
ReplTest(fs, o, defs, text) ==
  IF Strip(text) = "" THEN [k |-> "done", p |-> "", loc |-> "", bad |-> FALSE]
  ELSE LET r == Translate(text, CfgOf(fs, [o EXCEPT !.browse = FALSE], "", "", 0, defs), "<stdout>") IN
    CASE r.k = "unsup" -> [k |-> "unsup", p |-> "", loc |-> "", bad |-> FALSE]
      [] r.k = "err" -> [k |-> "done", p |-> "\n", loc |-> ErrorLoc(r), bad |-> TRUE]
      [] r.k = "ast" -> [k |-> "unsup", p |-> "", loc |-> "", bad |-> FALSE]
      [] r.k = "out" -> [k |-> "done", loc |-> "", bad |-> FALSE, p |-> "\n" \o (IF r.s = "" THEN "" ELSE "--> " \o r.s \o "\n") \o "* OK *\n"]
Prompt == "[yupp]# "
Repl(fs, o, defs, lines) ==
  LET z == FoldLeft(LAMBDA a, l :
        IF a.done THEN a
        ELSE IF Strip(l) = "exit" THEN [a EXCEPT !.done = TRUE, !.out = @ \o Prompt]
        ELSE IF Strip(l) = "test" THEN
          LET r == ReplTest(fs, o, defs, a.test) IN
          [a EXCEPT !.test = "", !.out = @ \o Prompt \o r.p, !.unsup = @ \/ r.k = "unsup", !.errs = IF r.bad THEN Append(@, r.loc) ELSE @]
        ELSE [a EXCEPT !.test = @ \o l \o "\n", !.out = @ \o Prompt],
        [done |-> FALSE, test |-> "", out |-> Prompt \o "Type \"exit\" or source code + \"test\".\n", unsup |-> FALSE, errs |-> <<>>], lines)
  IN IF z.done THEN z ELSE [z EXCEPT !.out = @ \o Prompt \o "\n"]

(* ---- an invocation of the command line tool ---- *)
(* gives [k, rc, fs, log, out, errs]: out is what a quiet run prints apart from the diagnostics,  *)
(* errs the places of the errors in the text and in the interactive loop                          *)
Cli(fs, dirs, args, stdin, defs0, t) ==
  LET a == Options(args, fs)
      o == IF a.o.files = <<>> THEN [a.o EXCEPT !.browse = FALSE] ELSE a.o
      defs == Defs(defs0, o.define)
      init == [k |-> "done", fs |-> fs, log |-> <<>>, failed |-> 0, out |-> ""]
      txt == IF o.text = "" THEN [k |-> "done", p |-> "", errs |-> <<>>]
             ELSE LET r == Translate(o.text, CfgOf(fs, o, o.textsrc, "", 0, defs), "<stdout>") IN
               IF r.k \in {"unsup", "ast"} THEN [k |-> "unsup", p |-> "", errs |-> <<>>]
               ELSE [k |-> "done", errs |-> IF r.k = "err" THEN <<ErrorLoc(r)>> ELSE <<>>, p |-> IF r.k = "err" THEN "\n" ELSE "\n" \o (IF r.s = "" THEN "" ELSE r.s \o "\n") \o "* OK *\n"]
      step(b, fn) ==
        IF b.k # "done" THEN b
        ELSE LET r == RunFile(b.fs, dirs, o, fn, 0, defs, t, <<>>) IN
          [k |-> r.k, fs |-> r.fs, log |-> b.log \o r.log, failed |-> b.failed + (IF r.ok THEN 0 ELSE 1),
           out |-> b.out \o JoinStr([j \in 1..Len(r.log) |->
             (IF r.log[j].m = "missing" THEN "" ELSE "\n")
             \o (IF o.type /\ r.log[j].ok THEN r.log[j].s \o "\n" ELSE "")])]
      z == FoldLeft(step, [init EXCEPT !.out = txt.p], o.files)
      rp == Repl(fs, o, defs, SplitLines(stdin))
      res(k, rc, f, log, out) == [k |-> k, rc |-> rc, fs |-> f, log |-> log, out |-> out,
        errs |-> IF k = "done" /\ a.k = "ok" THEN txt.errs \o (IF o.files = <<>> THEN rp.errs ELSE <<>>) ELSE <<>>]
  IN CASE a.k = "bad" -> res("done", 2, fs, <<>>, "")
       [] a.k = "unsup" -> res("unsup", 0, fs, <<>>, "")
       [] OTHER ->
          IF txt.k = "unsup" THEN res("unsup", 0, fs, <<>>, "")
          ELSE IF o.files # <<>> THEN res(z.k, 4 * z.failed, z.fs, z.log, z.out)
          ELSE res(IF rp.unsup THEN "unsup" ELSE "done", 0, fs, <<>>, txt.p \o rp.out)

(* ---- the configuration files of the package interface ---- *)
ConfNames == ("PP_SKIP_COMMENTS_NONE" :> 0) @@ ("PP_SKIP_C_COMMENTS" :> 1) @@ ("PP_SKIP_PYTHON_COMMENTS" :> 2) @@ ("PP_SKIP_COMMENTS_AUTO" :> 3)
(* a value: an int, True/False, a string, a list of strings, or a known name *)
ConfVal(s) ==
  IF s \in {"True", "False"} THEN [k |-> "bool", v |-> s = "True"]
  ELSE IF s \in DOMAIN ConfNames THEN [k |-> "int", v |-> ConfNames[s]]
  ELSE IF s # "" /\ Skip(Chars(s), 1, Digits) > Len(s) /\ Len(s) < 5 THEN [k |-> "int", v |-> ValOf(Chars(s), 1, Len(s), 10)]
  ELSE IF s = "[]" THEN [k |-> "list", v |-> <<>>]
  ELSE IF StartsWith(s, "['") /\ EndsWith(s, "']") THEN [k |-> "list", v |-> SplitStr(SubSeq(s, 3, Len(s) - 2), "', '")]
  ELSE IF StartsWith(s, "'") /\ EndsWith(s, "'") THEN [k |-> "str", v |-> SubSeq(s, 2, Len(s) - 1)]
  ELSE IF StartsWith(s, "undef") THEN [k |-> "err", v |-> ""]
  ELSE [k |-> "unsup", v |-> ""]
BoolOf(v) == IF v.k = "bool" THEN v.v ELSE v.v # 0
ConfKeys == ("pp_skip_comments" :> "skip") @@ ("pp_trim_app_indent" :> "trim") @@ ("pp_reduce_emptiness" :> "reduce") @@ ("pp_browse" :> "browse")
  @@ ("read_only" :> "ro") @@ ("force" :> "force") @@ ("directory" :> "dirs") @@ ("dependency" :> "deps") @@ ("pp_define" :> "define")
  @@ ("quiet" :> "quiet") @@ ("type_output" :> "type")
ConfIgnored == {"log_level", "trace_stage", "traceback", "warn_unbound_application", "output_dir", "unknown_name"}
(* a: [o, stop, unsup] *)
ConfLine(a, l) ==
  LET k == IndexFrom(l, " = ", 1)
      n == SubSeq(l, 1, k - 1)
      v == ConfVal(SubSeq(l, k + 3, Len(l)))
  IN IF a.stop \/ l = "" \/ StartsWith(l, "#") THEN a
     ELSE IF k = 0 THEN (IF StartsWith(l, "raise ") \/ StartsWith(l, "undef") THEN [a EXCEPT !.stop = TRUE] ELSE [a EXCEPT !.unsup = TRUE])
     ELSE IF v.k = "err" THEN [a EXCEPT !.stop = TRUE]
     ELSE IF v.k = "unsup" \/ (n \notin DOMAIN ConfKeys /\ n \notin ConfIgnored) THEN [a EXCEPT !.unsup = TRUE]
     ELSE IF n \in ConfIgnored THEN a
     ELSE LET f == ConfKeys[n] IN
       IF f \in {"dirs", "deps", "define"} THEN (IF v.k = "list" THEN [a EXCEPT !.o[f] = v.v] ELSE [a EXCEPT !.unsup = TRUE])
       ELSE IF v.k \notin {"int", "bool"} THEN [a EXCEPT !.unsup = TRUE]
       ELSE IF f = "skip" THEN (IF v.k = "int" /\ v.v \in 0..3 THEN [a EXCEPT !.o.skip = v.v] ELSE [a EXCEPT !.unsup = TRUE])
       ELSE [a EXCEPT !.o[f] = BoolOf(v)]
ConfScript(a, fs, n) ==
  IF n \notin DOMAIN fs THEN a
  ELSE LET r == FoldLeft(ConfLine, [a EXCEPT !.stop = FALSE], SplitLines(fs[n].s)) IN r
ConfOf(fs, fn) ==
  ConfScript(ConfScript([o |-> Opts0, stop |-> FALSE, unsup |-> FALSE], fs, ".yuconfig"), fs, NormPath(Root(fn)) \o ".yuconfig")

(* ---- the package interface ---- *)
(* an output file newer than everything it depends on is used as it is *)
Fresh(fs, o, fn, out) ==
  /\ ~o.force /\ out \in DOMAIN fs
  /\ \A d \in ({fn} \cup {NormPath(o.deps[j]) : j \in 1..Len(o.deps)}) : d \in DOMAIN fs /\ fs[d].t < fs[out].t
FirstLine(s) == LET q == SplitLines(s) IN IF q = <<>> THEN "" ELSE q[1]
(* [k, ok, fs, out, s, shrink, ran] *)
Process(fs, dirs, fn, text, defs0, t) ==
  LET c == ConfOf(fs, fn)
      out == NormPath(OutputName(fn, ""))
      r == Step(fs, dirs, c.o, fn, text, OutputName(fn, ""), 0, Defs(defs0, c.o.define), t)
      res(k, ok, f, n, s, sh, ran, loc) == [k |-> k, ok |-> ok, fs |-> f, out |-> n, s |-> s, shrink |-> sh, ran |-> ran, loc |-> loc]
  IN IF c.unsup THEN res("unsup", FALSE, fs, out, "", 0, FALSE, "")
     ELSE IF Fresh(fs, c.o, NormPath(fn), out) THEN
       IF Bad(fs[out].s) THEN res("unsup", FALSE, fs, out, "", 0, FALSE, "")
       ELSE res("done", TRUE, fs, out, fs[out].s, IF \E w \in {"coding:", "coding="} : IndexFrom(FirstLine(UnifyEol(text)), w, 1) # 0 THEN 1 ELSE 2, FALSE, "")
     ELSE IF r.k = "unsup" THEN res("unsup", FALSE, fs, out, "", 0, FALSE, "")
     ELSE res("done", r.ok, r.fs, r.out, r.s, r.shrink, TRUE, r.loc)
=============================================================================
