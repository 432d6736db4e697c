------------------------------- MODULE SetOps -------------------------------
(***************************************************************************)
(* Interval sets in their three combining styles                           *)
(*   "join"  interval_set            borders are never remembered          *)
(*   "sep"   separate_interval_set   an added interval melts with what it  *)
(*                                   overlaps, not with what it touches    *)
(*   "split" split_interval_set      every border ever added is kept       *)
(* Every operator maps (style, pre-state, operand) to the post-state.      *)
(***************************************************************************)
EXTENDS Segments

Styles == {"join", "sep", "split"}

Ones(D) == [x \in Atoms |-> IF x \in D THEN 1 ELSE None]
Canon(style, D, C) == Build(Ones(D), IF style = "join" THEN {} ELSE C)

SetWF(style, s) == Ordered(s) /\ NonEmpty(s) /\ (style = "join" => MaximallyJoined(s))

\* all well-formed states of a style
AllSets(style) ==
  IF style = "join" THEN { Build(f, {}) : f \in Contents({1}) } ELSE AllCut({1})

Overlapped(s, r) == { i \in DOMAIN s : s[i][1] <= r[2] /\ r[1] <= s[i][2] }

SAdd(style, s, r) ==
  IF IsEmptyRange(r) THEN s
  ELSE LET D  == Dom(s) \cup RangeAtoms(r)
           C  == Borders(s) \cup RBorders(r)
           ov == Overlapped(s, r)
           lo == Min({r[1]} \cup { s[i][1] : i \in ov })
           hi == Max({r[2]} \cup { s[i][2] : i \in ov })
       IN  CASE style = "join"  -> Canon(style, D, {})
             [] style = "split" -> Canon(style, D, C)
             [] style = "sep"   -> Canon(style, D, C \ ((lo + 1) .. hi))

SSub(style, s, r)  == IF IsEmptyRange(r) THEN s
                      ELSE Canon(style, Dom(s) \ RangeAtoms(r), Borders(s))
SAnd(style, s, r)  == Canon(style, Dom(s) \cap RangeAtoms(r), Borders(s) \cup RBorders(r))
SFlip(style, s, r) == LET R == RangeAtoms(r) IN
                      IF IsEmptyRange(r) THEN s
                      ELSE Canon(style, (Dom(s) \ R) \cup (R \ Dom(s)), Borders(s) \cup RBorders(r))

SegRange(g) == <<g[1], g[2]>>

RECURSIVE SAddSegs(_, _, _, _)
SAddSegs(style, s, t, i) == IF i > Len(t) THEN s
                            ELSE SAddSegs(style, SAdd(style, s, SegRange(t[i])), t, i + 1)
SAddC(style, s, t)  == SAddSegs(style, s, t, 1)
SSubC(style, s, t)  == Canon(style, Dom(s) \ Dom(t), Borders(s))
SAndC(style, s, t)  == Canon(style, Dom(s) \cap Dom(t), Borders(s) \cup Borders(t))
SXorC(style, s, t)  == Canon(style, (Dom(s) \ Dom(t)) \cup (Dom(t) \ Dom(s)), Borders(s) \cup Borders(t))

\* erasure of the i-th segment, of segments i..j-1 (iterator erasure)
SEraseAt(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j, Len(s))

\* one operation with a range operand / with a container operand
SOpR(op, style, s, r) ==
  CASE op = "add" -> SAdd(style, s, r)  [] op = "sub"  -> SSub(style, s, r)
    [] op = "and" -> SAnd(style, s, r)  [] op = "flip" -> SFlip(style, s, r)
SOpC(op, style, s, t) ==
  CASE op = "addC" -> SAddC(style, s, t) [] op = "subC" -> SSubC(style, s, t)
    [] op = "andC" -> SAndC(style, s, t) [] op = "xorC" -> SXorC(style, s, t)
ROps == {"add", "sub", "and", "flip"}
COps == {"addC", "subC", "andC", "xorC"}

\* ------------------------------------ the abstract meaning (element level)
AbsR(op, D, r) == LET R == RangeAtoms(r) IN
  CASE op = "add" -> D \cup R [] op = "sub" -> D \ R [] op = "and" -> D \cap R
    [] op = "flip" -> (D \ R) \cup (R \ D)
AbsC(op, D, E) ==
  CASE op = "addC" -> D \cup E [] op = "subC" -> D \ E [] op = "andC" -> D \cap E
    [] op = "xorC" -> (D \ E) \cup (E \ D)
=============================================================================
