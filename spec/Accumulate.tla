----------------------------- MODULE Accumulate -----------------------------
(***************************************************************************)
(* add_intersection(z, x, p): the common part of x and p is added to what  *)
(* z already holds, "the effect is identical to z += (x & p)".  Every      *)
(* section z, every container x, every operand p: elements and intervals,  *)
(* pairs, containers of the same kind and key sets.  Works on interval     *)
(* sets, interval maps and, by content, on element sets and maps.          *)
(***************************************************************************)
EXTENDS MapOps, SetOps, TLC, CSV, IOUtils
CONSTANTS Selected,  \* "set-join", "set-sep", "set-split" and names of map types
          OpSet,     \* subset of {"rng", "pair", "cont", "keys"}
          Big, OutFile
VARIABLES m, z, x

SetKind(st) == [style |-> st, total |-> FALSE, absorb |-> FALSE, comb |-> "none"]
IsSet(t) == t.comb = "none"
NameOf(t) == IF IsSet(t) THEN "set-" \o t.style ELSE TypeName(t)
Kinds == { t \in MapTypes \cup { SetKind(st) : st \in Styles } : NameOf(t) \in Selected }
States(t) == IF IsSet(t) THEN AllSets(t.style) ELSE AllMaps(t, StateVals(t, Big))
Operands == IF IsSet(m) THEN AllSets("split") ELSE AllMaps([m EXCEPT !.style = "split"], OperandVals(m, Big))
KeySets == AllSets("split")

Plus(a, b) == IF IsSet(m) THEN SAddC(m.style, a, b) ELSE MAddC(m, a, b)
\* the common part
AndR(r) == IF IsSet(m) THEN SAnd(m.style, x, r) ELSE MAndR(m, x, r)
AndP(r, v) == MAndSeg(m, x, r, v)
AndC(t) == IF IsSet(m) THEN SAndC(m.style, x, t) ELSE MAndC(m, x, t)
AndK(t) == MAndK(m, x, t)

\* nothing but the common part may have been touched, and there the values are combined
Meaning(y, q) ==
  LET f == Content(z) g == Content(y) h == Content(q) IN
  \A a \in Atoms : h[a] = IF g[a] = None THEN f[a] ELSE IF IsSet(m) THEN 1
                          ELSE IF f[a] = None THEN g[a] ELSE Ab(m, Comb(m.comb, f[a], g[a]))
WellFormed(q) == IF IsSet(m) THEN SetWF(m.style, q) ELSE MapWF(m, q)
Step(op, arg, y) == LET q == Plus(z, y) IN
  /\ Assert(WellFormed(q) /\ Meaning(y, q), <<"rule violated", m, op, arg, x, z, q>>)
  /\ z' = q /\ UNCHANGED <<m, x>>
  /\ IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s;%6$s", <<NameOf(m), op, arg, x, z, q>>, OutFile)

Rng  == "rng" \in OpSet /\ \E r \in RangesE : Step("rng", r, AndR(r))
Pair == "pair" \in OpSet /\ ~IsSet(m) /\ \E r \in RangesE, v \in PairVals(m, Big) : Step("pair", <<r[1], r[2], v>>, AndP(r, v))
Cont == "cont" \in OpSet /\ \E t \in Operands : Step("cont", t, AndC(t))
Keys == "keys" \in OpSet /\ ~IsSet(m) /\ \E t \in KeySets : Step("keys", t, AndK(t))

Init == m \in Kinds /\ x \in States(m) /\ z \in States(m)
Spec == Init /\ [][Rng \/ Pair \/ Cont \/ Keys]_<<m, z, x>>
WF == WellFormed(z)
InV == IsSet(m) \/ \A i \in DOMAIN z : z[i][3] \in StateVals(m, Big)
=============================================================================
