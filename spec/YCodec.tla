------------------------------- MODULE YCodec ------------------------------
(* The encoding "yupp" of Python sources: which names stand for it, what a   *)
(* source declared with it is read as, and how it runs.                      *)
EXTENDS YRun
CodingChars == Letters \cup Digits \cup {"-", "."}
(* ---- names: yupp, or yupp.ENCODING for a source in that encoding ---- *)
(* [k |-> "yupp", base] | [k |-> "other"] the name is none of ours | [k |-> "none"] there is no such encoding | [k |-> "unsup"] *)
KnownCodec(n) == Ask("codec", <<StrV(n)>>)
LookupName(n) ==
  LET low == LowerStr(n)
      base == SubSeq(n, 6, Len(n))
      a == KnownCodec(base)
  IN IF ~StartsWith(low, "yupp") THEN [k |-> "other", base |-> ""]
     ELSE IF Len(n) = 4 THEN [k |-> "yupp", base |-> "utf-8"]
     ELSE IF SubSeq(n, 5, 5) # "." THEN [k |-> "none", base |-> ""]
     ELSE IF a.ok THEN [k |-> "yupp", base |-> base]
     ELSE [k |-> IF a.m = "py" THEN "none" ELSE "unsup", base |-> ""]

(* ---- the declaration: a comment of the first or second line ---- *)
DeclIn(l) ==
  LET s == LStripSet(l, SpaceSet)
      c == Chars(s)
      at(j) == Skip(c, j + 7, SpaceSet)
      J == {j \in 1..Len(s) : StartsAt(s, j, "coding") /\ At(c, j + 6) \in {":", "="} /\ At(c, at(j)) \in CodingChars}
      j == CHOOSE j \in J : \A k \in J : j <= k
  IN IF ~StartsWith(s, "#") \/ J = {} THEN "" ELSE SubSeq(s, at(j), Skip(c, at(j), CodingChars) - 1)
PassLine(l) == LET s == LStripSet(l, SpaceSet) IN s = "" \/ StartsWith(s, "#")
SourceLines(s) == SplitStr(UnifyEol(s), "\n")
(* [n |-> number of lines up to the declaration, name] *)
DeclOf(s) ==
  LET q == SourceLines(s) IN
  IF q = <<>> THEN [n |-> 0, name |-> ""]
  ELSE IF DeclIn(q[1]) # "" THEN [n |-> 1, name |-> DeclIn(q[1])]
  ELSE IF Len(q) > 1 /\ PassLine(q[1]) /\ DeclIn(q[2]) # "" THEN [n |-> 2, name |-> DeclIn(q[2])]
  ELSE [n |-> 0, name |-> ""]

(* ---- the text of a source file in an encoding ---- *)
DecodedAs(s, base) ==
  IF Bad(s) THEN Ask("recode", <<StrV(SubSeq(s, 6, Len(s))), StrV(base)>>)
  ELSE IF AsciiOnly(s) \/ LowerStr(base) \in {"utf-8", "utf8"} THEN VOk(StrV(s)) ELSE VErr("unsup")
AsciiOf(s) == MapStr(s, LAMBDA c : IF c \in KnownChars /\ OrdTab[c] < 127 THEN c ELSE "e")
IsPython(s) == Ask("parses", <<StrV(AsciiOf(s))>>)
(* A source read in an encoding, at once ("whole") or by an interpreter that has read the header already ("rest").     *)
(* [k, fs, out, s, ok, shrink, ran, loc, data, lines]: data is the text read, lines how much the lines are to be moved *)
ReadSource(fs, dirs, fn, base, how, t) ==
  LET n == NormPath(fn)
      text == DecodedAs(fs[n].s, base)
      q == SourceLines(text.v.s)
      h == DeclOf(text.v.s).n
      (* the line of the declaration is ended once more by the interpreter *)
      src == IF how = "rest" THEN JoinSep(SubSeq(q, 1, h) \o <<"">> \o SubSeq(q, h + 1, Len(q)), "\n") ELSE text.v.s
      p == Process(fs, dirs, fn, src, <<>>, t)
      py == IsPython(p.s)
      res(k, fs1, ok, data) == [k |-> k, fs |-> fs1, out |-> p.out, s |-> p.s, ok |-> ok, shrink |-> p.shrink, ran |-> p.ran, loc |-> p.loc, data |-> data,
                                lines |-> IF ~ok THEN 0 ELSE IF how = "rest" THEN p.shrink ELSE 1]
  IN IF ~text.ok \/ (how = "rest" /\ h = 0) THEN [k |-> "unsup", fs |-> fs, out |-> "", s |-> "", ok |-> FALSE, shrink |-> 0, ran |-> FALSE, loc |-> "", data |-> "", lines |-> 0]
     ELSE IF p.k = "unsup" THEN res("unsup", p.fs, FALSE, "")
     ELSE IF ~p.ok THEN res("done", p.fs, FALSE, "")
     ELSE IF py.ok THEN res("done", p.fs, TRUE, p.s)
     ELSE res(IF py.m = "py" THEN "done" ELSE "unsup", p.fs, TRUE, "")
(* ---- a source run by the interpreter: what it prints, how it ends, where its traceback leads ---- *)
RunSource(fs, dirs, fn, t) ==
  LET n == NormPath(fn)
      d == DeclOf(fs[n].s)
      l == LookupName(d.name)
      r == ReadSource(fs, dirs, fn, l.base, "whole", t)
      run == Ask("runs", <<StrV(Basename(r.out)), StrV(r.data)>>)
      (* a run is a list: status, what is printed, the traceback *)
      none == <<IntV(0), StrV(""), StrV("")>>
  IN IF l.k # "yupp" \/ Bad(fs[n].s) \/ r.k = "unsup" THEN [r EXCEPT !.k = "unsup"] @@ [run |-> none]
     ELSE IF r.data = "" THEN r @@ [run |-> none]
     ELSE IF ~run.ok THEN [r EXCEPT !.k = "unsup"] @@ [run |-> none]
     ELSE r @@ [run |-> run.v.e]
=============================================================================
