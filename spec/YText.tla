------------------------------- MODULE YText -------------------------------
(* Text: characters, lines, indentation, white space.                        *)
(* A text is a TLA+ string; Chars(s) is the same text as a tuple of          *)
(* one-character strings, which is what the scanning operators work on.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

OrdPairs == JsonDeserialize("ord.json")
OrdTab == [c \in {OrdPairs[i][1] : i \in 1..Len(OrdPairs)} |->
             OrdPairs[CHOOSE i \in 1..Len(OrdPairs) : OrdPairs[i][1] = c][2]]
CodeTab == [n \in {OrdPairs[i][2] : i \in 1..Len(OrdPairs)} |->
             OrdPairs[CHOOSE i \in 1..Len(OrdPairs) : OrdPairs[i][2] = n][1]]
KnownChars == DOMAIN OrdTab
Ord(c) == OrdTab[c]
Chr(n) == CodeTab[n]

EOL == "\n"
CR == "\r"
TAB == "\t"
EolSet == {"\n", "\r"}
SpaceSet == {" ", "\t"}
GapSet == EolSet \cup SpaceSet
Digits == {"0","1","2","3","4","5","6","7","8","9"}
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSet == {LowerSeq[i] : i \in 1..26}
UpperSet == {UpperSeq[i] : i \in 1..26}
Letters == LowerSet \cup UpperSet \cup {"_"}
AtomTail == Letters \cup Digits \cup {"-"}
HexDigits == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
(* A character yupp accepts in plain text. *)
AnySet == {c \in KnownChars : c \in GapSet \/ (OrdTab[c] >= 32 /\ OrdTab[c] <= 255)}
(* Characters str.strip()/rstrip()/isspace() treat as white space. *)
WsSet == {c \in KnownChars : OrdTab[c] \in ({9,10,11,12,13,28,29,30,31,32,133,160} \cup {8232})}
(* Characters str.splitlines() splits at. *)
LineSet == {c \in KnownChars : OrdTab[c] \in {10,11,12,13,28,29,30,133,8232}}
STEADY_SPACE == Chr(254)
STEADY_TAB == Chr(255)

Chars(s) == TLCEval([i \in 1..Len(s) |-> SubSeq(s, i, i)])
Sub(s, i, j) == SubSeq(s, i, j)
At(c, i) == IF i <= Len(c) THEN c[i] ELSE ""
(* first index >= i whose character is not in S *)
Skip(c, i, S) ==
  CHOOSE j \in i..(Len(c) + 1) :
    /\ (j > Len(c) \/ c[j] \notin S)
    /\ \A k \in i..(j - 1) : c[k] \in S
(* first index >= i whose character is in S *)
Find(c, i, S) ==
  CHOOSE j \in i..(Len(c) + 1) :
    /\ (j > Len(c) \/ c[j] \in S)
    /\ \A k \in i..(j - 1) : c[k] \notin S
(* last index <= j whose character is not in S, or i-1 *)
SkipBack(c, i, j, S) ==
  LET K == {k \in i..j : c[k] \notin S} IN
  IF K = {} THEN i - 1 ELSE CHOOSE k \in K : \A m \in K : m <= k

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
JoinStr(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
JoinSep(q, sep) == IF q = <<>> THEN "" ELSE
  FoldLeft(LAMBDA a, x : a \o sep \o x, q[1], Tail(q))
Repeat(s, n) == FoldLeft(LAMBDA a, x : a \o s, "", [i \in 1..n |-> i])
MapStr(s, F(_)) == LET c == Chars(s) IN JoinStr([i \in 1..Len(c) |-> F(c[i])])

(* index of the first occurrence of p in s at or after i, or 0 *)
IndexFrom(s, p, i) ==
  LET last == Len(s) - Len(p) + 1 IN
  IF i > last THEN 0 ELSE
  LET j == CHOOSE j \in i..(last + 1) :
             /\ (j > last \/ SubSeq(s, j, j + Len(p) - 1) = p)
             /\ \A k \in i..(j - 1) : SubSeq(s, k, k + Len(p) - 1) # p
  IN IF j > last THEN 0 ELSE j

RECURSIVE ReplaceAcc(_, _, _, _, _)
ReplaceAcc(s, p, r, i, acc) ==
  LET j == IndexFrom(s, p, i) IN
  IF j = 0 THEN acc \o SubSeq(s, i, Len(s))
  ELSE ReplaceAcc(s, p, r, TLCEval(j + Len(p)), TLCEval(acc \o SubSeq(s, i, j - 1) \o r))
(* str.replace( p, r ), p not empty *)
Replace(s, p, r) == IF IndexFrom(s, p, 1) = 0 THEN s ELSE ReplaceAcc(s, p, r, 1, "")

Upper1(c) == IF c \in LowerSet THEN CodeTab[OrdTab[c] - 32] ELSE c
Lower1(c) == IF c \in UpperSet THEN CodeTab[OrdTab[c] + 32] ELSE c
UpperStr(s) == MapStr(s, Upper1)
LowerStr(s) == MapStr(s, Lower1)

LStripSet(s, S) == LET c == Chars(s) IN SubSeq(s, Skip(c, 1, S), Len(s))
RStripSet(s, S) == LET c == Chars(s) IN SubSeq(s, 1, SkipBack(c, 1, Len(c), S))
LStrip(s) == LStripSet(s, WsSet)
RStrip(s) == RStripSet(s, WsSet)
Strip(s) == LStrip(RStrip(s))

(* str.splitlines( True ): lines with their ends *)
SplitLinesKeep(s) ==
  LET c == Chars(s)
      ends == SelectSeq([i \in 1..Len(c) |-> i],
                LAMBDA i : c[i] \in LineSet /\ ~(c[i] = CR /\ i < Len(c) /\ c[i + 1] = EOL))
      cuts == <<0>> \o ends \o (IF Len(s) = 0 \/ (ends # <<>> /\ ends[Len(ends)] = Len(s)) THEN <<>> ELSE <<Len(s)>>)
  IN [i \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[i] + 1, cuts[i + 1])]
ChopEol(l) ==
  IF EndsWith(l, "\r\n") THEN SubSeq(l, 1, Len(l) - 2)
  ELSE IF l # "" /\ SubSeq(l, Len(l), Len(l)) \in LineSet THEN SubSeq(l, 1, Len(l) - 1) ELSE l
SplitLines(s) == LET q == SplitLinesKeep(s) IN [i \in 1..Len(q) |-> ChopEol(q[i])]

(* str.split( sep ) *)
RECURSIVE SplitAcc(_, _, _, _)
SplitAcc(s, sep, i, acc) ==
  LET j == IndexFrom(s, sep, i) IN
  IF j = 0 THEN Append(acc, SubSeq(s, i, Len(s)))
  ELSE SplitAcc(s, sep, TLCEval(j + Len(sep)), TLCEval(Append(acc, SubSeq(s, i, j - 1))))
SplitStr(s, sep) == SplitAcc(s, sep, 1, <<>>)
(* str.split(): runs of white space *)
RECURSIVE SplitWsAcc(_, _, _, _)
SplitWsAcc(s, c, i, acc) ==
  LET a == Skip(c, i, WsSet) IN
  IF a > Len(c) THEN acc
  ELSE LET b == Find(c, a, WsSet) IN SplitWsAcc(s, c, b, TLCEval(Append(acc, SubSeq(s, a, b - 1))))
SplitWs(s) == SplitWsAcc(s, Chars(s), 1, <<>>)

UnifyEol(s) == Replace(Replace(s, "\r\n", "\n"), "\r", "\n")

(* ---- textwrap.dedent ---- *)
(* a line for dedent ends at "\n" only *)
NlLines(s) == LET q == SplitStr(s, "\n") IN q
IndentOf(l) == LET c == Chars(l) IN SubSeq(l, 1, Skip(c, 1, SpaceSet) - 1)
IsBlankSt(l) == LET c == Chars(l) IN Skip(c, 1, SpaceSet) > Len(c)
CommonPrefix(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      k == CHOOSE k \in 0..n : SubSeq(a, 1, k) = SubSeq(b, 1, k) /\ (k = n \/ SubSeq(a, k + 1, k + 1) # SubSeq(b, k + 1, k + 1))
  IN SubSeq(a, 1, k)
MarginOf(inds) ==
  IF inds = <<>> THEN ""
  ELSE FoldLeft(LAMBDA m, ind : IF StartsWith(ind, m) THEN m
                                ELSE IF StartsWith(m, ind) THEN ind
                                ELSE CommonPrefix(m, ind), inds[1], Tail(inds))
(* Lines made of blanks only become empty; the common margin of the others is removed. *)
Dedent(s) ==
  LET q0 == NlLines(s)
      q == [i \in 1..Len(q0) |-> IF IsBlankSt(q0[i]) THEN "" ELSE q0[i]]
      m == MarginOf([i \in 1..Len(SelectSeq(q, LAMBDA l : l # "")) |-> IndentOf(SelectSeq(q, LAMBDA l : l # "")[i])])
  IN IF m = "" THEN JoinSep(q, "\n")
     ELSE JoinSep([i \in 1..Len(q) |-> IF q[i] = "" THEN "" ELSE SubSeq(q[i], Len(m) + 1, Len(q[i]))], "\n")
(* The text of an application, written at indent ind, takes that indent on every further line. *)
Reindent(s, ind) == IF s = "" THEN s ELSE JoinSep(SplitLinesKeep(Dedent(s)), ind)

(* ---- final white space normalisation (pp_reduce_emptiness) ---- *)
ReduceEmptiness(s) ==
  LET q == [i \in 1..Len(SplitLines(s)) |-> RStrip(SplitLines(s)[i])]
      keep == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : ~(i > 1 /\ q[i] = "" /\ q[i - 1] = ""))
  IN JoinSep([i \in 1..Len(keep) |-> q[keep[i]]], "\n") \o "\n"
(* ---- the same when a map of the output is made: text is removed, never put in ---- *)
BlankTail(q) == q # <<>> /\ IsBlankSt(q[Len(q)])
EmptyLine(l) == EndsWith(l, EOL) /\ IsBlankSt(SubSeq(l, 1, Len(l) - 1))
ReindentMap(s, ind) ==
  IF s = "" THEN s
  ELSE LET q0 == SplitLinesKeep(s)
           q == IF BlankTail(q0) THEN SubSeq(q0, 1, Len(q0) - 1) ELSE q0
           full == SelectSeq(q, LAMBDA l : ~EmptyLine(l))
           n == Len(MarginOf([i \in 1..Len(full) |-> IndentOf(full[i])]))
       IN JoinStr([i \in 1..Len(q) |-> IF EmptyLine(q[i]) THEN q[i] ELSE (IF i = 1 THEN "" ELSE ind) \o SubSeq(q[i], n + 1, Len(q[i]))])
ReduceMap(s) ==
  LET q == SplitLinesKeep(s)
      keep == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : ~(i > 1 /\ EmptyLine(q[i]) /\ EmptyLine(q[i - 1])))
  IN JoinStr([i \in 1..Len(keep) |-> q[keep[i]]])
(* white space at the ends of the lines and of the text does not count *)
Visible(s) == LET q == SplitLines(s) IN RStrip(JoinSep([i \in 1..Len(q) |-> RStrip(q[i])], "\n"))
ReplaceSteady(s) == Replace(Replace(s, STEADY_TAB, TAB), STEADY_SPACE, " ")
=============================================================================
