------------------------------- MODULE YEval -------------------------------
(* Evaluation of a syntax tree.                                              *)
(* env  a sequence of frames, innermost first; a frame keeps its names in    *)
(*      the order of assignment: [n |-> names, v |-> values]                 *)
(* st   the translation so far: cfg, src (sources by name), out (name given  *)
(*      to the output file), rep (another passage is wanted)                 *)
(* Eval gives [ok |-> TRUE, n, env, st] or [ok |-> FALSE, m, f, i, st].      *)
(* A node that cannot be reduced yet is given back with its reduced parts.   *)
EXTENDS YBuiltin

R(n, env, st) == [ok |-> TRUE, n |-> n, env |-> env, st |-> st, m |-> "", f |-> "", i |-> 0]
E(m, f, i, st) == [ok |-> FALSE, n |-> NoneN, env |-> <<>>, st |-> st, m |-> m, f |-> f, i |-> i]
ELoc(m, nd, st) == E(IF nd.f = "" THEN "noloc" ELSE m, nd.f, nd.p, st)

MaxSteps == 4000
MaxDepth == 120
BOUND == [t |-> "BOUND"]
Frame0 == [n |-> <<>>, v |-> <<>>]
Idx(q, x) == LET K == {k \in 1..Len(q) : q[k] = x} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
DropAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
FHas(fr, x) == Idx(fr.n, x) # 0
FGet(fr, x) == fr.v[Idx(fr.n, x)]
(* an assignment moves the name to the end of the order *)
FSet(fr, x, v) ==
  LET k == Idx(fr.n, x) IN
  IF k = 0 THEN [n |-> Append(fr.n, x), v |-> Append(fr.v, v)]
  ELSE [n |-> Append(DropAt(fr.n, k), x), v |-> Append(DropAt(fr.v, k), v)]
FUpd(fr, x, v) == [fr EXCEPT !.v[Idx(fr.n, x)] = v]
Level(env, x) == LET K == {k \in 1..Len(env) : FHas(env[k], x)} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k <= j
(* first parameter without a value, "" if none *)
Unassigned(fr) == LET K == {k \in 1..Len(fr.n) : fr.v[k].t = "BOUND"} IN IF K = {} THEN "" ELSE fr.n[CHOOSE k \in K : \A j \in K : k <= j]
Assoc(q, x) == LET K == {k \in 1..Len(q) : q[k][1] = x} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k >= j
HasDefault(cl, x) == x # "" /\ Assoc(cl.dflt, x) # 0

RECURSIVE IsTerm(_)
IsTerm(n) ==
  CASE n.t \in {"None", "LAZY", "INT", "BOOL", "FLOAT"} \cup StrTags -> TRUE
    [] n.t = "TRIM" -> IsTerm(n.a)
    [] n.t \in ListTags -> \A k \in 1..Len(n.e) : IsTerm(n.e[k])
    [] OTHER -> FALSE
RECURSIVE Deadlock(_)
Deadlock(n) ==
  CASE n.t = "TRIM" -> Deadlock(n.a)
    [] n.t \in ListTags -> \E k \in 1..Len(n.e) : Deadlock(n.e[k])
    [] OTHER -> n.t \in {"BUILTIN", "SPECIAL", "SCRIPT"}
RECURSIVE PlainOf(_, _)
(* a terminal tree as text *)
PlainOf(n, cfg) ==
  CASE n.t = "None" -> VOk("")
    [] n.t = "TRIM" -> LET r == PlainOf(n.a, cfg) IN IF ~r.ok \/ ~cfg.trim THEN r ELSE VOk(IF cfg.browse THEN ReindentMap(r.v, n.ind) ELSE Reindent(r.v, n.ind))
    [] n.t \in ListTags -> LET r == MapV(n.e, LAMBDA x : PlainOf(x, cfg)) IN IF ~r.ok THEN r ELSE VOk(JoinStr(r.v))
    [] n.t = "LAZY" -> IF IsTerm(n.a) THEN PlainOf(n.a, cfg) ELSE VErr("unsup")
    [] n.t = "PLAIN" -> VOk(IF cfg.trim /\ n.trim THEN LStrip(n.s) ELSE n.s)
    [] OTHER -> VBind(NodeStr(n), LAMBDA v : VOk(v.s))
(* a value as it is put into the text of a macro *)
MacroArg(n) == IF IsList(n) /\ n.e = <<>> THEN VOk("()") ELSE IF n.t = "None" THEN VOk("None") ELSE VBind(NodeStr(n), LAMBDA v : VOk(v.s))

AddIndent(n, ind) ==
  IF n.t # "PLAIN" \/ n.ind = "N" THEN n
  ELSE LET q0 == SplitLinesKeep(n.s)
           q == IF SubSeq(n.s, Len(n.s), Len(n.s)) \in EolSet THEN Append(q0, "") ELSE q0
       IN [n EXCEPT !.s = JoinSep(q, ind), !.ind = IF @ = "F" THEN "F" ELSE "S" \o ind \o SubSeq(@, 2, Len(@)), !.f = "", !.p = 0]
IndStr(ind) == IF ind = "F" THEN "" ELSE SubSeq(ind, 2, Len(ind))
Closure(tag, form, fr, late, dflt, call) == [t |-> tag, form |-> form, fr |-> fr, late |-> late, dflt |-> dflt, call |-> call, dn |-> "", df |-> "", dp |-> 0]

RECURSIVE Eval(_, _, _), EvalT(_, _, _, _), EvalList(_, _, _), EvalApply(_, _, _), EvalFrame(_, _, _), ApplyClosure(_, _, _, _),
          ForEach(_, _, _, _), EvalNamed(_, _, _, _), First(_, _, _), EvalDefaults(_, _, _), EvalDef(_, _, _), EvalLambda(_, _, _), DoApply(_, _, _)

(* ---- the elements of a text, one after another ---- *)
EvalT(e, ind0, env, st) ==
  LET start == [done |-> FALSE, err |-> R(NoneN, env, st), skip |-> 0, ind |-> ind0, acc |-> <<>>, trim |-> FALSE, env |-> env, st |-> st]
      step(a, k) ==
        IF a.done THEN a
        ELSE
        LET x0 == e[k]
            x1 == IF a.trim /\ x0.t = "PLAIN" THEN [x0 EXCEPT !.trim = TRUE] ELSE x0
            nextPlain == k < Len(e) /\ e[k + 1].t = "PLAIN"
            isStr == a.ind # "F"
            xind == IF x1.t = "PLAIN" THEN (IF x1.ind = "N" THEN a.ind ELSE x1.ind) ELSE "F"
            b == [a EXCEPT !.trim = FALSE]
        IN
        IF a.skip > 0 THEN [b EXCEPT !.skip = IF x1.t = "IMPB" THEN @ + 1 ELSE IF x1.t = "IMPE" THEN @ - 1 ELSE @]
        ELSE IF x1.t = "COMMENT" THEN [b EXCEPT !.trim = isStr /\ nextPlain]
        ELSE
        LET r == Eval(x1, b.env, b.st)
            rest == IF k < Len(e) /\ isStr /\ nextPlain
                    THEN <<[e[k + 1] EXCEPT !.trim = TRUE]>> \o SubSeq(e, k + 2, Len(e)) ELSE SubSeq(e, k + 1, Len(e))
            x == r.n
        IN
        IF ~r.ok THEN [b EXCEPT !.done = TRUE, !.err = r]
        ELSE IF x.t = "None" THEN [b EXCEPT !.env = r.env, !.st = r.st]
        ELSE IF x.t = "SKIP" THEN [b EXCEPT !.skip = 1, !.env = r.env, !.st = r.st]
        ELSE IF x.t \in {"IMPB", "IMPE"} THEN [b EXCEPT !.env = r.env, !.st = r.st]
        ELSE IF x.t = "ENV" THEN
          IF k = Len(e) THEN [b EXCEPT !.done = TRUE, !.env = r.env, !.st = r.st]
          ELSE LET y == Eval([t |-> "SETC", form |-> [t |-> "T", e |-> rest, ind |-> b.ind], fr |-> x.fr], r.env, r.st) IN
               IF ~y.ok THEN [b EXCEPT !.done = TRUE, !.err = y]
               ELSE [b EXCEPT !.done = TRUE, !.acc = Append(@, y.n), !.env = y.env, !.st = y.st]
        ELSE IF x.t = "EMBED" /\ x.a.t = "T" THEN
          LET ins == IF isStr /\ IndStr(b.ind) # "" THEN [j \in 1..Len(x.a.e) |-> AddIndent(x.a.e[j], IndStr(b.ind))] ELSE x.a.e
              y == Eval([t |-> "T", e |-> ins \o SubSeq(e, k + 1, Len(e)), ind |-> b.ind], r.env, r.st)
          IN IF ~y.ok THEN [b EXCEPT !.done = TRUE, !.err = y]
             ELSE [b EXCEPT !.done = TRUE, !.acc = IF IsList(y.n) THEN @ \o y.n.e ELSE Append(@, y.n), !.env = y.env, !.st = y.st]
        ELSE
          LET v == IF x.t = "EMBED" THEN x.a ELSE x IN
          [b EXCEPT !.acc = Append(@, IF x1.t = "APPLY" THEN [t |-> "TRIM", a |-> v, ind |-> IndStr(b.ind)] ELSE v),
                    !.ind = xind, !.env = r.env, !.st = r.st]
      z == FoldLeft(step, start, [k \in 1..Len(e) |-> k])
      T == [t |-> "T", e |-> z.acc, ind |-> ind0]
  IN IF ~z.err.ok THEN z.err
     ELSE IF ~IsTerm(T) THEN R(T, z.env, z.st)
     ELSE LET p == PlainOf(T, st.cfg) IN
       IF p.ok THEN R(StrV(p.v), z.env, z.st) ELSE E("unsup", "", 0, z.st)

(* ---- the items of a list ---- *)
EvalList(e, env, st) ==
  LET step(a, x) ==
        IF ~a.ok THEN a
        ELSE LET r == Eval(x, a.env, a.st) IN
          IF ~r.ok THEN r
          ELSE IF r.n.t = "None" THEN R(a.n, r.env, r.st)
          ELSE IF r.n.t = "EMBED" THEN
            R(IF IsList(r.n.a) THEN List(a.n.e \o r.n.a.e)
              ELSE IF r.n.a.t \in {"VAR", "APPLY"} THEN List(Append(a.n.e, r.n)) ELSE List(Append(a.n.e, r.n.a)), r.env, r.st)
          ELSE R(List(Append(a.n.e, r.n)), r.env, r.st)
  IN FoldLeft(step, R(List(<<>>), env, st), e)

(* the values of a frame; flag: all are terminal *)
EvalFrame(fr, env, st) ==
  LET step(a, k) ==
        IF ~a.ok THEN a
        ELSE LET r == Eval(fr.v[k], a.env, a.st) IN
          IF ~r.ok THEN r
          ELSE R([n |-> fr.n, v |-> Append(a.n.v, r.n)], r.env, r.st)
  IN FoldLeft(step, R(Frame0, env, st), [k \in 1..Len(fr.n) |-> k])
FrameTerm(fr) == \A k \in 1..Len(fr.v) : IsTerm(fr.v[k])

EvalDefaults(bound, env, st) ==
  LET step(a, b) ==
        IF ~a.ok \/ b.d.t = "None" THEN a
        ELSE LET r == Eval(b.d, a.env, a.st) IN IF ~r.ok THEN r ELSE R(Append(a.n, <<b.v, r.n>>), r.env, r.st)
  IN FoldLeft(step, R(<<>>, env, st), bound)

(* first value of an argument list: n = <<value, rest>> or <<"hold">> *)
First(args, env, st) ==
  IF args = <<>> THEN R(<<NoneN, <<>>>>, env, st)
  ELSE LET r == Eval(args[1], env, st) IN
    IF ~r.ok THEN r
    ELSE IF r.n.t # "EMBED" THEN R(<<r.n, Tail(args)>>, r.env, r.st)
    ELSE IF IsList(r.n.a) THEN
      IF r.n.a.e # <<>> THEN R(<<r.n.a.e[1], Tail(r.n.a.e) \o Tail(args)>>, r.env, r.st)
      ELSE First(Tail(args), r.env, r.st)
    ELSE IF r.n.a.t \in {"VAR", "APPLY"} THEN R(<<[t |-> "HOLD"], args>>, r.env, r.st)
    ELSE R(<<r.n.a, Tail(args)>>, r.env, r.st)

EvalNamed(named, k, env, st) ==
  IF k > Len(named) THEN R(named, env, st)
  ELSE LET r == Eval(named[k][2], env, st) IN
    IF ~r.ok THEN r ELSE EvalNamed([named EXCEPT ![k] = <<named[k][1], r.n>>], k + 1, r.env, r.st)

(* "for each": every item goes through the argument functions in turn *)
ForEach(items, fns, env, st) ==
  LET one(a, fn) ==
        IF ~a.ok THEN a ELSE Eval(Apply(fn, <<a.n>>, <<>>, "", 0), a.env, a.st)
      step(a, x) ==
        IF ~a.ok THEN a
        ELSE LET r == FoldLeft(one, R(x, a.env, a.st), fns) IN
          IF ~r.ok THEN r
          ELSE R(IF r.n.t = "None" THEN a.n ELSE List(Append(a.n.e, r.n)), r.env, r.st)
  IN FoldLeft(step, R(List(<<>>), env, st), items)

FmtRepl(s, pairs, cfg) ==
  LET step(a, kv) == IF ~a.ok THEN a ELSE LET p == PlainOf(kv[2], [cfg EXCEPT !.browse = FALSE]) IN IF ~p.ok THEN p ELSE VOk(Replace(a.v, "($" \o kv[1] \o ")", p.v))
  IN FoldLeft(step, VOk(s), pairs)

(* ---- application of a lambda or of a macro ---- *)
(* nd: the application, its function and arguments already evaluated *)
ApplyClosure(nd, cl0, env, st) ==
  LET cl == cl0
      setvar(var, r, nd2) ==
        (* r: the value; bind it and go on *)
        IF ~r.ok THEN r
        ELSE
          LET k == Assoc(cl.late, var)
              v == IF k = 0 THEN r
                   ELSE Eval(Closure("LCLO", r.n, [n |-> cl.late[k][2], v |-> [j \in 1..Len(cl.late[k][2]) |-> BOUND]], <<>>, <<>>, NoneN), r.env, r.st)
          IN IF ~v.ok THEN v
             ELSE
               LET fr == FSet(cl.fr, var, v.n)
                   cl2 == [cl EXCEPT !.fr = fr]
               IN IF nd2.named = <<>> /\ nd2.args = <<>> /\ ~HasDefault(cl2, Unassigned(fr)) THEN Eval(cl2, v.env, v.st)
                  ELSE Eval([nd2 EXCEPT !.fn = cl2], v.env, v.st)
  IN
  IF nd.named # <<>> THEN
    LET var == nd.named[1][1] IN
    IF ~FHas(cl.fr, var.s) THEN ELoc("type", var, st)
    ELSE setvar(var.s, Eval(nd.named[1][2], env, st), [nd EXCEPT !.named = Tail(@)])
  ELSE IF nd.args # <<>> THEN
    LET var == Unassigned(cl.fr) IN
    IF var = "" THEN Eval(cl, env, st)
    ELSE IF var = "__va_args__" THEN setvar(var, R(List(nd.args), env, st), [nd EXCEPT !.args = <<>>])
    ELSE LET r == First(nd.args, env, st) IN
      IF ~r.ok THEN r
      ELSE IF r.n[1].t = "HOLD" THEN R([nd EXCEPT !.fn = cl], r.env, r.st)
      ELSE setvar(var, R(r.n[1], r.env, r.st), [nd EXCEPT !.args = r.n[2]])
  ELSE
    LET var == Unassigned(cl.fr) IN
    IF var = "" THEN Eval(cl, env, st)
    ELSE IF ~HasDefault(cl, var) THEN R(cl, env, st)
    ELSE setvar(var, Eval(cl.dflt[Assoc(cl.dflt, var)][2], env, st), nd)

PosOf(n) == IF n.t = "INT" THEN n.v ELSE NumOf(n)
(* Python's indexing with an offset that is below the length *)
Subscript(q, pos) ==
  IF pos >= Len(q) THEN VOk(NoneN)
  ELSE IF pos >= 0 THEN VOk(q[pos + 1])
  ELSE IF pos >= -Len(q) THEN VOk(q[Len(q) + pos + 1]) ELSE VErr("py")

(* the specification gives no result to a program that takes too many steps or goes too deep *)
EvalApply(node, env, st) ==
  IF st.steps > MaxSteps \/ st.depth > MaxDepth THEN E("unsup", "", 0, st)
  ELSE LET r == DoApply(node, env, [st EXCEPT !.steps = @ + 1, !.depth = @ + 1]) IN [r EXCEPT !.st.depth = st.depth]

DoApply(node, env, st) ==
  LET rf == Eval(node.fn, env, st) IN
  IF ~rf.ok THEN rf
  ELSE LET ra == EvalList(node.args, rf.env, rf.st) IN
  IF ~ra.ok THEN ra
  ELSE
  LET fn == rf.n
      args == ra.n.e
      nd == [node EXCEPT !.fn = fn, !.args = args]
      env1 == ra.env
      st1 == ra.st
      call == IF node.fn.t = "VAR" THEN node.fn.atom ELSE NoneN
      argsTerm == \A k \in 1..Len(args) : IsTerm(args[k])
      keep == R(nd, env1, st1)
  IN
  CASE fn.t \in {"BUILTIN", "SPECIAL"} ->
    IF nd.named # <<>> THEN ELoc("type", nd.named[1][1], st1)
    ELSE IF fn.t = "SPECIAL" THEN
      CASE fn.atom.s \in {"lazy", "repr"} ->
             IF Len(args) # 1 THEN ELoc("type", fn.atom, st1)
             ELSE IF args[1].t = "VAR" THEN keep
             ELSE IF fn.atom.s = "repr" THEN E("unsup", "", 0, st1)
             ELSE R(IF IsList(args[1]) THEN List([k \in 1..Len(args[1].e) |-> [t |-> "LAZY", a |-> args[1].e[k]]])
                    ELSE [t |-> "LAZY", a |-> args[1]], env1, st1)
        [] fn.atom.s = "isatom" ->
             IF Len(args) # 1 THEN ELoc("type", fn.atom, st1)
             ELSE IF args[1].t \in {"APPLY", "CONDC"} \/ (args[1].t = "VAR" /\ Level(env1, args[1].atom.s) # 0) THEN keep
             ELSE R(IntN(IF args[1].t \in {"ATOM", "VAR"} THEN 1 ELSE 0), env1, st1)
        [] fn.atom.s = "__PASSAGE__" ->
             IF Len(args) # 1 \/ ~IsList(args[1]) THEN ELoc("type", fn.atom, st1)
             ELSE LET q == args[1].e k == st1.cfg.passage IN
               R(IF k < Len(q) THEN q[k + 1] ELSE NoneN, env1, [st1 EXCEPT !.rep = k < Len(q) - 1])
        [] fn.atom.s = "skip" ->
             IF args # <<>> THEN ELoc("type", fn.atom, st1) ELSE R([t |-> "SKIP"], env1, st1)
        [] fn.atom.s = "reduce" ->
             LET rest == IF args = <<>> THEN <<>> ELSE Tail(args)
                 op == IF args = <<>> THEN "" ELSE args[1].t
             IN
             IF Len(args) = 1 /\ op \notin {"BUILTIN", "SPECIAL", "SCRIPT"} THEN ELoc("type", fn.atom, st1)
             ELSE IF Len(args) < 2 THEN ELoc("type", nd, st1)
             ELSE IF \E k \in 1..Len(rest) : ~IsTerm(rest[k]) THEN
               (IF Deadlock(List(IF op \in {"BUILTIN", "SPECIAL", "SCRIPT"} THEN rest ELSE args)) THEN ELoc("type", nd, st1) ELSE keep)
             ELSE IF op \in {"VAR", "APPLY"} THEN keep
             ELSE IF op \notin {"BUILTIN", "SPECIAL", "SCRIPT"} THEN ELoc("type", nd, st1)
             ELSE IF op = "SPECIAL" \/ (op = "SCRIPT" /\ ~args[1].call) THEN E("unsup", "", 0, st1)
             ELSE IF Len(args) > 3 \/ ~(IsStr(args[2]) \/ IsList(args[2])) THEN ELoc("type", nd, st1)
             ELSE
               LET q0 == IF IsList(args[2]) THEN args[2].e ELSE LET c == Chars(args[2].s) IN [k \in 1..Len(c) |-> StrV(c[k])]
                   q == (IF Len(args) = 3 THEN <<args[3]>> ELSE <<>>) \o q0
                   v == FoldLeft(LAMBDA a, x : IF ~a.ok THEN a ELSE IF args[1].t = "SCRIPT" THEN Ask("call", <<StrV(args[1].s), StrV(args[1].atom.s), a.v, x>>) ELSE BCall(args[1].atom.s, <<a.v, x>>, [input |-> "", output |-> "", module |-> ""]), VOk(q[1]), Tail(q))
               IN IF q = <<>> THEN ELoc("type", nd, st1)
                  ELSE IF v.ok THEN R(v.v, env1, st1) ELSE IF v.m = "unsup" THEN E("unsup", "", 0, st1) ELSE ELoc("type", nd, st1)
        [] OTHER -> E("unsup", "", 0, st1)
    ELSE IF fn.atom.s \in DOMAIN st1.cfg.defs THEN
      IF args # <<>> THEN ELoc("type", fn.atom, st1)
      ELSE R(IF st1.cfg.defs[fn.atom.s] = "" THEN BoolV(TRUE) ELSE StrV(st1.cfg.defs[fn.atom.s]), env1, st1)
    ELSE IF fn.atom.s \in ConstNames THEN
      IF args # <<>> THEN ELoc("type", fn.atom, st1)
      ELSE IF fn.atom.s \in DOMAIN ConstText THEN R(StrV(ConstText[fn.atom.s]), env1, st1)
      ELSE LET v == Ask("=" \o fn.atom.s, <<>>) IN IF v.ok THEN R(v.v, env1, st1) ELSE E("unsup", "", 0, st1)
    ELSE IF argsTerm THEN
      LET v == BCall(fn.atom.s, args, [input |-> st1.cfg.input, output |-> st1.out, module |-> st1.cfg.module]) IN
      IF ~v.ok THEN (IF v.m = "unsup" THEN E("unsup", "", 0, st1) ELSE ELoc("type", nd, st1))
      ELSE R(IF v.v.t = "BOOL" THEN IntN(NumOf(v.v)) ELSE v.v, env1, st1)
    ELSE IF Deadlock(List(args)) THEN ELoc("type", nd, st1)
    ELSE keep
  [] fn.t = "SCRIPT" ->
    LET ask(kind, q) == Ask(kind, <<StrV(fn.s), StrV(fn.atom.s)>> \o q) IN
    IF nd.named # <<>> THEN ELoc("type", nd.named[1][1], st1)
    ELSE IF ~fn.call THEN
      IF args # <<>> THEN ELoc("type", fn.atom, st1)
      ELSE LET v == ask("value", <<>>) IN IF v.ok THEN R(v.v, env1, st1) ELSE E("unsup", "", 0, st1)
    ELSE IF argsTerm THEN
      LET v == ask("call", args) IN
      IF v.ok THEN R(IF v.v.t = "BOOL" THEN IntN(NumOf(v.v)) ELSE v.v, env1, st1)
      ELSE IF v.m = "unsup" THEN E("unsup", "", 0, st1) ELSE ELoc("type", nd, st1)
    ELSE IF Deadlock(List(args)) THEN ELoc("type", nd, st1)
    ELSE keep
  [] fn.t \in {"INT", "BOOL", "FLOAT"} ->
    IF nd.named # <<>> THEN ELoc("type", nd.named[1][1], st1)
    ELSE IF args = <<>> THEN R(fn, env1, st1)
    ELSE IF ~argsTerm THEN keep
    ELSE IF fn.t = "FLOAT" /\ (LET v == Ask("int", <<fn>>) IN ~v.ok \/ v.v.t # "INT") THEN E("unsup", "", 0, st1)
    ELSE LET q == IF Len(args) = 1 /\ IsList(args[1]) THEN args[1].e ELSE args
             v == Subscript(q, NumOf(IF fn.t = "FLOAT" THEN Ask("int", <<fn>>).v ELSE fn))
         IN IF v.ok THEN R(v.v, env1, st1) ELSE ELoc("type", nd, st1)
  [] fn.t \in {"TEXT", "T"} ->
    IF args # <<>> \/ nd.named # <<>> THEN ELoc("type", nd, st1) ELSE Eval(fn, env1, st1)
  [] fn.t \in {"LCLO", "MCLO"} -> ApplyClosure(nd, [fn EXCEPT !.call = call], env1, st1)
  [] fn.t = "LAZY" -> Eval([nd EXCEPT !.fn = fn.a], env1, st1)
  [] fn.t = "ATOM" -> IF args # <<>> \/ nd.named # <<>> THEN ELoc("type", fn, st1) ELSE R(fn, env1, st1)
  [] fn.t \in StrTags ->
    IF args = <<>> /\ nd.named = <<>> THEN R(fn, env1, st1)
    ELSE LET rn == EvalNamed(nd.named, 1, env1, st1) IN
      IF ~rn.ok THEN rn
      ELSE IF ~argsTerm \/ \E k \in 1..Len(rn.n) : ~IsTerm(rn.n[k][2]) THEN R([nd EXCEPT !.named = rn.n], rn.env, rn.st)
      ELSE LET v == FmtRepl(fn.s, [k \in 1..Len(args) |-> <<ToString(k - 1), args[k]>>]
                                  \o [k \in 1..Len(rn.n) |-> <<rn.n[k][1].s, rn.n[k][2]>>], st1.cfg) IN
        IF v.ok THEN R(Str(v.v, "", 0), rn.env, rn.st) ELSE E("unsup", "", 0, st1)
  [] fn.t \in ListTags ->
    IF nd.named # <<>> THEN ELoc("type", nd.named[1][1], st1) ELSE ForEach(fn.e, args, env1, st1)
  [] fn.t \in {"SKIP", "None"} -> R(fn, env1, st1)
  [] OTHER -> keep

(* ---- names bound by ($set) and ($let) ---- *)
EvalDef(node, env, st) ==
  LET fr0 == FoldLeft(LAMBDA fr, a : FSet(fr, a.s, BOUND), Frame0, node.lv)
      r == Eval(node.a, <<fr0>> \o env, st)
      fr1 == IF ~r.ok THEN fr0 ELSE
        IF ~node.multi THEN FSet(r.env[1], node.lv[1].s, r.n)
        ELSE IF IsList(r.n) THEN
          FoldLeft(LAMBDA fr, k : FSet(fr, node.lv[k].s, IF k <= Len(r.n.e) THEN r.n.e[k] ELSE NoneN), r.env[1], [k \in 1..Len(node.lv) |-> k])
        ELSE FoldLeft(LAMBDA fr, a : FSet(fr, a.s, r.n), r.env[1], node.lv)
  IN IF ~r.ok THEN r ELSE R(fr1, Tail(r.env), r.st)

EvalLambda(node, env, st) ==
  LET lv == IF node.bv.t = "None" THEN 0 ELSE Level(env, node.bv.atom.s)
      val == IF lv = 0 THEN NoneN ELSE FGet(env[lv], node.bv.atom.s)
      bound == IF node.bv.t = "None" THEN node.bound
               ELSE [k \in 1..Len(val.e) |-> [late |-> <<>>, v |-> val.e[k].s, d |-> NoneN]]
  IN
  IF node.bv.t # "None" /\ val.t = "BOUND" THEN R(node, env, st)
  ELSE IF node.bv.t # "None" /\ (~IsList(val) \/ (IsList(val) /\ \E k \in 1..Len(val.e) : val.e[k].t # "ATOM")) THEN ELoc("type", node.bv.atom, st)
  ELSE
    LET d == EvalDefaults(bound, env, st)
        name(v) == IF v = "..." THEN "__va_args__" ELSE v
        fr == FoldLeft(LAMBDA f, b : FSet(f, name(b.v), BOUND), Frame0, bound)
        lates == SelectSeq(bound, LAMBDA b : b.late # <<>>)
    IN IF ~d.ok THEN d
       ELSE Eval(Closure("LCLO", node.form, fr, [k \in 1..Len(lates) |-> <<lates[k].v, lates[k].late>>], d.n, NoneN), d.env, d.st)

Eval(node, env, st) ==
  CASE node.t = "TEXT" -> EvalT(node.e, "S", env, st)
  [] node.t = "T" -> EvalT(node.e, node.ind, env, st)
  [] node.t = "APPLY" -> EvalApply(node, env, st)
  [] node.t = "VAR" ->
    LET lv == Level(env, node.atom.s) a == node.atom.s IN
    IF lv # 0 THEN
      LET v == FGet(env[lv], a) IN IF v.t = "BOUND" THEN R(node, env, st) ELSE R(v, env, st)
    ELSE IF node.late THEN R(node, env, st)
    ELSE IF node.reg # <<>> THEN ELoc("type", node.atom, st)
    ELSE IF ScriptOf(a, st) # 0 THEN
      LET x == st.scr[ScriptOf(a, st)] IN R([t |-> "SCRIPT", atom |-> node.atom, s |-> x.s, call |-> a \in x.fns], env, st)
    ELSE IF a \in DOMAIN st.cfg.defs \/ a \in BuiltinNames THEN R([t |-> "BUILTIN", atom |-> node.atom], env, st)
    ELSE IF a \in SpecialNames THEN R([t |-> "SPECIAL", atom |-> node.atom], env, st)
    ELSE IF IndexFrom(a, "-", 1) # 0 THEN R([node EXCEPT !.late = TRUE], env, st)
    ELSE R(node.atom, env, st)
  [] node.t = "LAMBDA" -> EvalLambda(node, env, st)
  [] node.t = "LCLO" ->
    LET r == Eval(node.form, <<node.fr>> \o env, st) IN
    IF ~r.ok THEN r
    ELSE IF Unassigned(node.fr) # "" THEN R([node EXCEPT !.form = r.n, !.fr = r.env[1]], Tail(r.env), r.st)
    ELSE R(r.n, Tail(r.env), r.st)
  [] node.t = "SET" ->
    IF ~node.multi /\ node.lv[1].s = "__OUTPUT_FILE__" THEN
      LET r == Eval(node.a, env, st) IN
      IF ~r.ok THEN r
      ELSE IF IsStr(r.n) THEN
        LET u == Unq(r.n.s) IN
        IF u.ok THEN R(NoneN, r.env, [r.st EXCEPT !.out = u.v, !.outset = TRUE]) ELSE E("unsup", "", 0, r.st)
      ELSE R(NoneN, r.env, r.st)  (* only warned about *)
    ELSE LET r == EvalDef(node, env, st) IN IF ~r.ok THEN r ELSE R([t |-> "ENV", fr |-> r.n], r.env, r.st)
  [] node.t = "LET" ->
    LET r == EvalDef(node, env, st) IN
    IF ~r.ok THEN r
    ELSE LET b == Eval(node.form, <<r.n>> \o r.env, r.st) IN IF ~b.ok THEN b ELSE R(b.n, Tail(b.env), b.st)
  [] node.t = "SETC" ->
    LET r == Eval(node.form, <<node.fr>> \o env, st) IN
    IF ~r.ok THEN r
    ELSE R(IF IsTerm(r.n) THEN r.n ELSE [node EXCEPT !.form = r.n, !.fr = r.env[1]], Tail(r.env), r.st)
  [] node.t = "MACRO" ->
    R([t |-> "ENV", fr |-> [n |-> <<node.name.s>>,
        v |-> <<[Closure("MCLO", Str(node.s, "", 0), FoldLeft(LAMBDA f, p : FSet(f, p, BOUND), Frame0, node.pars), <<>>, <<>>, NoneN)
                 EXCEPT !.dn = node.name.s, !.df = node.name.f, !.dp = node.name.p]>>]], env, st)
  [] node.t = "MCLO" ->
    LET r == EvalFrame(node.fr, env, st) IN
    IF ~r.ok THEN r
    ELSE IF ~FrameTerm(r.n) THEN R([node EXCEPT !.fr = r.n], r.env, r.st)
    ELSE
      LET put(a, k) == IF ~a.ok THEN a ELSE LET v == MacroArg(r.n.v[k]) IN IF ~v.ok THEN v ELSE VOk(Replace(a.v, "($" \o r.n.n[k] \o ")", v.v))
          s == FoldLeft(put, VOk(node.form.s), [k \in 1..Len(r.n.n) |-> k])
      IN IF ~s.ok THEN E("unsup", "", 0, r.st)
         ELSE Eval([t |-> "EVAL", a |-> StrV(s.v), dn |-> node.dn, df |-> node.df, dp |-> node.dp, call |-> node.call], r.env, r.st)
  [] node.t = "EVAL" ->
    LET r == Eval(node.a, env, st) IN
    IF ~r.ok THEN r
    ELSE IF ~IsStr(r.n) THEN R([node EXCEPT !.a = r.n], r.env, r.st)
    ELSE
      LET u == IF r.n.t = "STR" THEN VBind(Unq(r.n.s), LAMBDA s : VOk(IF StartsWith(Strip(s), "($") THEN Strip(s) ELSE "($" \o Strip(s) \o ")"))
               ELSE VOk(r.n.s)
      IN IF ~u.ok THEN E("unsup", "", 0, r.st)
         ELSE
           LET id == ToString(r.st.inc)
               K == TLCEval(Src(id, u.v))
               p == ParseSource(K, [r.st EXCEPT !.inc = @ + 1, !.src = (id :> [s |-> K.s, decl |-> node.dn, mac |-> TRUE, df |-> node.df, dp |-> node.dp, call |-> node.call]) @@ @])
               q == p.n.e
           IN IF ~p.ok THEN E(p.m, p.f, p.i, p.st)
              ELSE IF q = <<>> THEN R(NoneN, r.env, p.st)
              ELSE IF \E k \in 1..Len(q) : q[k].t = "SET" THEN R([t |-> "EMBED", a |-> [t |-> "T", e |-> q, ind |-> "S"]], r.env, p.st)
              ELSE Eval(IF Len(q) > 1 THEN [t |-> "T", e |-> q, ind |-> "S"] ELSE q[1], r.env, p.st)
  [] node.t = "COND" ->
    LET r == Eval(node.c, env, st) IN
    IF ~r.ok THEN r
    ELSE IF ~IsTerm(r.n) THEN R([t |-> "CONDC", c |-> r.n, l1 |-> node.l1, l0 |-> node.l0], r.env, r.st)
    ELSE Eval(IF Truthy(r.n) THEN node.l1 ELSE node.l0, r.env, r.st)
  [] node.t = "CONDC" ->
    LET r == Eval(node.c, env, st) IN
    IF ~r.ok THEN r
    ELSE IF ~IsTerm(r.n) THEN
      LET a == Eval(node.l1, r.env, r.st) IN
      IF ~a.ok THEN a
      ELSE LET b == Eval(node.l0, a.env, a.st) IN
        IF ~b.ok THEN b ELSE R([node EXCEPT !.c = r.n, !.l1 = a.n, !.l0 = b.n], b.env, b.st)
    ELSE LET a == Eval(IF Truthy(r.n) THEN node.l1 ELSE node.l0, r.env, r.st) IN
      IF ~a.ok THEN a ELSE Eval(a.n, a.env, a.st)
  [] node.t = "INFIX" ->
    LET r == Eval(node.a, env, st) IN
    IF ~r.ok THEN r
    ELSE IF ~IsStr(r.n) THEN R([node EXCEPT !.a = r.n], r.env, r.st)
    ELSE
      LET code == LStrip(r.n.s)
          x == ParseExpr(code)
          y == IF ~x.ok /\ x.m = "unsup" THEN Ask("names", <<StrV(code)>>) ELSE VErr("")
          names == SetToSeq({n \in (IF x.ok THEN ExprNames(x.e) ELSE IF y.ok THEN {y.v.e[k].s : k \in 1..Len(y.v.e)} ELSE {}) : Level(r.env, n) # 0})
      IN
      IF ~x.ok /\ ~y.ok THEN (IF x.m = "unsup" /\ y.m = "unsup" THEN E("unsup", "", 0, r.st) ELSE ELoc("type", node, r.st))
      ELSE
        Eval([t |-> "INFIXC", x |-> IF x.ok THEN x.e ELSE [o |-> "none"], code |-> code, f |-> node.f, p |-> node.p,
              fr |-> [n |-> names, v |-> [k \in 1..Len(names) |-> Var(<<>>, FALSE, Atom(names[k], "", 0))]]], r.env, r.st)
  [] node.t = "INFIXC" ->
    LET r == EvalFrame(node.fr, env, st) IN
    IF ~r.ok THEN r
    ELSE IF ~FrameTerm(r.n) THEN R([node EXCEPT !.fr = r.n], r.env, r.st)
    ELSE
      LET e == [n \in {r.n.n[k] : k \in 1..Len(r.n.n)} |-> FGet(r.n, n)]
          scripts == [k \in 1..Len(r.st.scr) |-> StrV(r.st.scr[k].s)]
          names == SetToSeq(DOMAIN e)
          v0 == IF node.x.o = "none" THEN VErr("unsup") ELSE EvalExpr(node.x, e)
          v == IF scripts # <<>> THEN
                 (IF AsciiOnly(node.code) THEN Ask("evals", <<List(scripts), StrV(node.code)>> \o [k \in 1..(2 * Len(names)) |-> IF k % 2 = 1 THEN StrV(names[(k + 1) \div 2]) ELSE e[names[k \div 2]]])
                  ELSE VErr("unsup"))
               ELSE IF ~v0.ok /\ v0.m = "unsup" THEN PyEval(node.code, e) ELSE v0
      IN
      IF v.ok THEN R(v.v, r.env, r.st)
      ELSE IF v.m = "unsup" THEN E("unsup", "", 0, r.st) ELSE ELoc("type", node, r.st)
  [] node.t = "EMIT" ->
    LET a == node.v.atom lv == Level(env, a.s) IN
    IF lv = 0 THEN ELoc("type", a, st)
    ELSE
      LET val == FGet(env[lv], a.s) IN
      IF val.t = "BOUND" THEN R(node, env, st)
      ELSE
        LET isl == IsList(val)
            res == IF isl THEN (IF val.e # <<>> THEN val.e[1] ELSE NoneN) ELSE val
            val1 == IF isl /\ val.e # <<>> THEN [val EXCEPT !.e = Tail(@)] ELSE val
            env1 == [env EXCEPT ![lv] = FUpd(@, a.s, val1)]
        IN IF node.a.t = "None" \/ (IsStr(node.a) /\ node.a.s = "") \/ (IsNum(node.a) /\ NumOf(node.a) = 0) \/ (IsList(node.a) /\ node.a.e = <<>>) THEN R(res, env1, st)
           ELSE LET r == Eval(Apply(node.a, <<val1>>, <<>>, "", 0), env1, st) IN
             IF ~r.ok THEN r
             ELSE R(res, [r.env EXCEPT ![Level(r.env, a.s)] = FUpd(@, a.s, r.n)], r.st)
  [] node.t = "LIST" -> EvalList(node.e, env, st)
  [] node.t \in {"EMBED", "TRIM"} ->
    LET r == Eval(node.a, env, st) IN IF ~r.ok THEN r ELSE R([node EXCEPT !.a = r.n], r.env, r.st)
  [] OTHER -> R(node, env, st)

(* ---- a whole translation ---- *)
(* cfg: py, skip, trim, reduce, browse, files, dirs, input, module, defs, passage    *)
(* result: [k |-> "out", s |-> text, ...] | [k |-> "ast"] | [k |-> "err", m, f, i, st] | [k |-> "unsup"] *)
Translate(text, cfg, output) ==
  LET K == TLCEval(Src(cfg.input, UnifyEol(text)))
      st0 == [cfg |-> TLCEval(cfg), inc |-> 0, scr |-> <<>>, steps |-> 0, depth |-> 0, shrink |-> 0, out |-> output, outset |-> FALSE, rep |-> FALSE,
              src |-> (cfg.input :> [s |-> K.s, decl |-> cfg.path, mac |-> FALSE, df |-> "", dp |-> 0, call |-> NoneN])]
      p == ParseSource(K, TLCEval(st0))
      fail(r) == IF r.m = "unsup" THEN [k |-> "unsup"] ELSE [k |-> "err", m |-> r.m, f |-> r.f, i |-> r.i, src |-> r.st.src]
  IN IF ~p.ok THEN fail(p)
     ELSE LET r == Eval(p.n, <<>>, p.st) IN
       IF ~r.ok THEN fail(r)
       ELSE IF ~IsStr(r.n) THEN [k |-> "ast", rep |-> r.st.rep]
       ELSE [k |-> "out", s |-> ReplaceSteady(IF ~cfg.reduce THEN r.n.s ELSE IF cfg.browse THEN ReduceMap(r.n.s) ELSE ReduceEmptiness(r.n.s)),
             out |-> r.st.out, outset |-> r.st.outset, rep |-> r.st.rep, shrink |-> r.st.shrink]
=============================================================================
