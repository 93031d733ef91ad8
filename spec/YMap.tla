-------------------------------- MODULE YMap -------------------------------
(* The map of an output (--pp-browse) and what it must say.                  *)
(* m: [files, browse: <<p, f, s>>..., offset: <<q, d>>...]; positions count   *)
(* from 0. A place q of the output has the place p = q + d in the text       *)
(* before white space was removed, d of the last entry of offset at or       *)
(* before q; the last entry of browse at or before p says where that comes   *)
(* from: s + (p - its place) in file f, or the place -s of a declaration     *)
(* (with the places of the calls before it in the list).                     *)
EXTENDS YText
LastAt(q, x) ==
  LET J == {j \in 1..Len(q) : q[j][1] <= x /\ (\A i \in 1..j : q[i][1] <= x)} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A i \in J : i <= j
(* the places place q of the output comes from: <<file, place, exact>> *)
Sources(m, q) ==
  LET i == LastAt(m.offset, q)
      p == q + (IF i = 0 THEN 0 ELSE m.offset[i][2])
      j == LastAt(m.browse, p)
  IN IF j = 0 THEN {}
     ELSE LET e == m.browse[j]
              J == {k \in 1..j : m.browse[k][1] = e[1]}
          IN IF J = {j} /\ e[3] >= 0 THEN {<<m.files[e[2] + 1], e[3] + (p - e[1]), TRUE>>}
             ELSE {<<m.files[m.browse[k][2] + 1], IF m.browse[k][3] < 0 THEN -m.browse[k][3] ELSE m.browse[k][3], FALSE>> : k \in J}
(* text(f): the text of a file named in the map, or None *)
Shape(m, out, Known(_), Text(_)) ==
  LET nb == Len(m.browse) no == Len(m.offset) IN
  IF \E f \in 1..Len(m.files) : ~Known(m.files[f]) THEN "a file of the map does not exist"
  ELSE IF Cardinality({m.files[f] : f \in 1..Len(m.files)}) # Len(m.files) THEN "a file of the map is listed twice"
  ELSE IF \E k \in 1..nb : m.browse[k][2] < 0 \/ m.browse[k][2] >= Len(m.files) THEN "an entry of the map has no file"
  ELSE IF \E k \in 1..nb : LET e == m.browse[k] n == Len(Text(m.files[e[2] + 1])) IN (IF e[3] < 0 THEN -e[3] ELSE e[3]) > n THEN "an entry of the map is outside of its file"
  ELSE IF \E k \in 2..nb : m.browse[k][1] < m.browse[k - 1][1] THEN "entries of the map are not in order"
  ELSE IF \E k \in 2..no : m.offset[k][1] < m.offset[k - 1][1] THEN "offsets of the map are not in order"
  ELSE IF nb > 0 /\ m.browse[1][1] < 0 THEN "an entry of the map is before the output"
  ELSE IF no > 0 /\ m.offset[1][1] < 0 THEN "an offset of the map is before the output"
  ELSE ""
Count(c, x) == Cardinality({i \in 1..Len(c) : c[i] = x})
(* a capital letter that the sources contain once comes from there *)
Marks(m, out, Text(_), texts) ==
  LET o == Chars(out)
      all == Chars(JoinStr(texts))
      marks == {i \in 1..Len(o) : o[i] \in UpperSet /\ Count(all, o[i]) = 1}
      good(i) ==
        LET S == Sources(m, i - 1) IN
        \E x \in S : LET c == Chars(Text(x[1])) IN
          IF x[3] THEN x[2] + 1 <= Len(c) /\ c[x[2] + 1] = o[i]
          ELSE \E k \in 1..Len(c) : c[k] = o[i] /\ x[2] < k
      wrong == {i \in marks : ~good(i)}
  IN IF wrong = {} THEN "" ELSE LET i == CHOOSE i \in wrong : TRUE IN "the map gives " \o ToString(Sources(m, i - 1)) \o " for " \o o[i] \o " at " \o ToString(i - 1)
=============================================================================
