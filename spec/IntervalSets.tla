---------------------------- MODULE IntervalSets ----------------------------
(***************************************************************************)
(* One interval set of a given style: every well-formed state, every       *)
(* operation, every operand.  TLC checks that each step means what the     *)
(* abstract element-level operation means and obeys the segmentation rules *)
(* of the style, and writes every transition to OutFile; the harness       *)
(* replays each of them into the real containers.                          *)
(***************************************************************************)
EXTENDS SetOps, TLC, CSV, IOUtils
CONSTANTS Style, OutFile
VARIABLE s

Init == s \in AllSets(Style)
Emit(op, arg, post) == IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s", <<op, arg, s, post>>, OutFile)

\* --- the segmentation rules, stated independently of the operators
Pair(b, D) == b - 1 \in D /\ b \in D
\* a border inside the content survives while the content around it does
KeepsBorders(p, q) == \A b \in Borders(p) : Pair(b, Dom(p)) /\ Pair(b, Dom(q)) => b \in Borders(q)
SepRule(p, r, q) ==       \* r melts with the segments it overlaps, all others stay as they are
  LET ov == Overlapped(p, r)
      kept == { p[i] : i \in DOMAIN p \ ov }
      new == <<Min({r[1]} \cup {p[i][1] : i \in ov}), Max({r[2]} \cup {p[i][2] : i \in ov}), 1>>
  IN { q[i] : i \in DOMAIN q } = kept \cup {new}
RangeOK(op, r, q) ==
  /\ Dom(q) = AbsR(op, Dom(s), r)
  /\ SetWF(Style, q)
  /\ Style = "split" => KeepsBorders(s, q)
  /\ (Style = "split" /\ op = "add") => RBorders(r) \subseteq Borders(q)
  /\ (Style = "sep" /\ op = "add" /\ ~IsEmptyRange(r)) => SepRule(s, r, q)
  /\ (Style = "sep" /\ op = "sub") => KeepsBorders(s, q)
ContOK(op, t, q) ==
  /\ Dom(q) = AbsC(op, Dom(s), Dom(t))
  /\ SetWF(Style, q)
  /\ (Style = "split" \/ op \in {"subC", "andC"}) /\ Style # "join" => KeepsBorders(s, q)
  /\ (Style = "split" /\ op = "addC") => Borders(t) \subseteq Borders(q)

RangeOp == \E op \in ROps, r \in RangesE :
              /\ s' = SOpR(op, Style, s, r)
              /\ Assert(RangeOK(op, r, s'), <<"range rule violated", op, r, s, s'>>)
              /\ Emit(op, r, s')
\* operands of every style: the states of a splitting set include all others
ContOp  == \E op \in COps, t \in AllSets("split") :
              /\ s' = SOpC(op, Style, s, t)
              /\ Assert(ContOK(op, t, s'), <<"container rule violated", op, t, s, s'>>)
              /\ Emit(op, t, s')
Next == RangeOp \/ ContOp
Spec == Init /\ [][Next]_s
Inv == SetWF(Style, s)
=============================================================================
