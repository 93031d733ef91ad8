-------------------------------- MODULE YLoc -------------------------------
(* How a place in a source is shown to the user.                             *)
(* src  the sources by name: s the text; decl what a location calls it; mac  *)
(*      is it the text of a macro or of an evaluated string; df, dp where    *)
(*      that was declared (mac), call the name that applied it, if any       *)
EXTENDS YEval

RECURSIVE LocText(_, _, _, _)
(* p: 1-based place in the source f *)
LocText(src, f, p, pointer) ==
  LET r == src[f]
      n == IndexFrom(r.s, "\n", p)
      eol == IF n = 0 THEN Len(r.s) + 1 ELSE n
      lines == SplitLines(SubSeq(r.s, 1, eol - 1))
      ln == IF lines = <<>> THEN "<not found>" ELSE LStrip(lines[Len(lines)])
      head == IF ~r.mac THEN "\n  File \"" \o (IF r.decl = "" THEN f ELSE r.decl) \o "\", line "
              ELSE (IF r.call.t # "None" /\ r.call.f # "" THEN LocText(src, r.call.f, r.call.p, FALSE) ELSE "")
                   \o (IF r.df = "" THEN "" ELSE LocText(src, r.df, r.dp, FALSE)) \o "\n  Macro \"" \o r.decl \o "\", line "
      pad == p - eol + Len(ln)
  IN head \o ToString(Len(lines)) \o "\n    " \o ln
     \o (IF pointer THEN "\n    " \o (IF pad > 0 THEN Repeat(" ", pad) ELSE "") \o "^" ELSE "")
(* the place an error is reported at, "" if it has none *)
ErrorLoc(res) == IF res.m \in {"eof", "noloc", "py"} \/ res.f = "" THEN "" ELSE LocText(res.src, res.f, res.i, TRUE)
=============================================================================
