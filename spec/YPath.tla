-------------------------------- MODULE YPath ------------------------------
(* File names: parts of a path, and the name yupp gives to an output file.   *)
EXTENDS YText

SlashPos(p) == LET K == {k \in 1..Len(p) : SubSeq(p, k, k) = "/"} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k >= j
Basename(p) == SubSeq(p, SlashPos(p) + 1, Len(p))
(* os.path.dirname: trailing slashes go unless the head is only slashes *)
Dirname(p) == LET h == SubSeq(p, 1, SlashPos(p)) IN
  IF \A k \in 1..Len(h) : SubSeq(h, k, k) = "/" THEN h ELSE RStripSet(h, {"/"})
(* os.path.splitext: leading dots of the last component do not start an extension *)
ExtPos(p) ==
  LET b == SlashPos(p)
      D == {k \in (b + 1)..Len(p) : SubSeq(p, k, k) = "." /\ \E j \in (b + 1)..(k - 1) : SubSeq(p, j, j) # "."}
  IN IF D = {} THEN Len(p) + 1 ELSE CHOOSE k \in D : \A j \in D : k >= j
Root(p) == SubSeq(p, 1, ExtPos(p) - 1)
Ext(p) == SubSeq(p, ExtPos(p), Len(p))
PathJoin(d, p) == IF d = "" \/ StartsWith(p, "/") THEN p ELSE IF EndsWith(d, "/") THEN d \o p ELSE d \o "/" \o p
(* a path without . and .. ; "" if it leaves the working directory (all directories are taken to exist) *)
Resolved(p) ==
  IF StartsWith(p, "/") \/ (IndexFrom(p, "./", 1) = 0 /\ IndexFrom(p, "//", 1) = 0) THEN p
  ELSE LET r == FoldLeft(LAMBDA a, x :
                  IF ~a.ok \/ x \in {"", "."} THEN a
                  ELSE IF x = ".." THEN (IF a.q = <<>> THEN [a EXCEPT !.ok = FALSE] ELSE [a EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)])
                  ELSE [a EXCEPT !.q = Append(@, x)], [ok |-> TRUE, q |-> <<>>], SplitStr(p, "/"))
       IN IF ~r.ok \/ r.q = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "/" \o x, "", r.q)

(* the name of the output file: dir is the output directory, "" for none *)
OutputName(fn, dir) ==
  LET p == IF dir = "" THEN fn ELSE PathJoin(dir, Basename(fn))
      r == Root(p)
      e == Ext(p)
      low == LowerStr(e)
  IN IF e = "" THEN r \o ".yugen"
     ELSE IF low = ".yu" THEN (IF Ext(r) = "" THEN r \o ".yugen" ELSE r)
     ELSE IF StartsWith(low, ".yu-") /\ Len(e) > 4 THEN r \o "." \o SubSeq(e, 5, Len(e))
     ELSE r \o ".yugen" \o e
AstName(out) == Root(out) \o ".ast"
IsPyOutput(out) == LowerStr(Ext(Basename(out))) = ".py"
ModuleName(fn) == IF fn = "" THEN "UNTITLED" ELSE UpperStr(Replace(Root(Basename(fn)), "-", "_"))
=============================================================================
