---------------------------- MODULE IntervalMaps ----------------------------
(***************************************************************************)
(* One interval map: every selected map type, every well-formed state with *)
(* values of the pool, every operation, every operand.  TLC checks every   *)
(* step against its per-key meaning and the representation rules, and      *)
(* writes the transition to OutFile for replay into the real containers.   *)
(***************************************************************************)
EXTENDS MapOps, TLC, CSV, IOUtils
CONSTANTS Selected, \* names of the map types, e.g. "pa-plus-join"
          OpSet,    \* the operations of this run
          Big,      \* TRUE: the larger value pools
          OutFile
VARIABLES m, s

Init == /\ m \in { t \in MapTypes : TypeName(t) \in Selected }
        /\ s \in AllMaps(m, StateVals(m, Big))
Emit(op, arg, post) == IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s", <<TypeName(m), op, arg, s, post>>, OutFile)

BorderRule(op, r, q) ==
  m.style = "split" =>
    /\ op \in {"add", "sub", "ins", "era", "eraK", "and", "andK", "flip"} =>
         \A b \in Borders(s) : {b - 1, b} \subseteq Dom(s) /\ {b - 1, b} \subseteq Dom(q) => b \in Borders(q)
    /\ op = "add" => \A b \in RBorders(r) : {b - 1, b} \subseteq Dom(q) => b \in Borders(q)
Step(op, arg, q, ok) == /\ Assert(MapWF(m, q) /\ ok, <<"rule violated", m, op, arg, s, q>>)
                        /\ s' = q /\ UNCHANGED m /\ Emit(op, arg, q)

\* symmetric difference with an identity value is ambiguous on absorbers
PairOp == \E op \in PairOps \cap OpSet, r \in RangesE, v \in PairVals(m, Big) :
            /\ Applicable(m, op) /\ ~(op = "flip" /\ m.absorb /\ v = 0)
            /\ LET q == MOpP(op, m, s, r, v) IN
               Step(op, <<r[1], r[2], v>>, q, Idle(m, r, v) \/ (PairMeaning(op, m, s, r, v, q) /\ BorderRule(op, r, q)))
KeyOp  == \E op \in KeyOps \cap OpSet, r \in RangesE :
            LET q == MOpK(op, m, s, r) IN Step(op, r, q, PairMeaning(op, m, s, r, 0, q) /\ BorderRule(op, r, q))
\* operand maps have the same traits; their states are those of the splitting map
MapOp  == \E op \in MapOpsC \cap OpSet, t \in IF OpSet \cap MapOpsC = {} THEN {} ELSE AllMaps([m EXCEPT !.style = "split"], OperandVals(m, Big)) :
            /\ Applicable(m, op)
            /\ LET q == MOpC(op, m, s, t) IN Step(op, t, q, ContMeaning(op, m, s, t, q))
KeySets == AllCut({1})
SetOp  == \E op \in SetOpsC \cap OpSet, t \in IF SetOpsC \cap OpSet = {} THEN {} ELSE KeySets :
            LET q == MOpC(op, m, s, t) IN Step(op, t, q, ContMeaning(op, m, s, t, q))
Next == PairOp \/ KeyOp \/ MapOp \/ SetOp
Spec == Init /\ [][Next]_<<m, s>>
WF == MapWF(m, s)
\* one step from every state of the value pool is explored
InV == \A i \in DOMAIN s : s[i][3] \in StateVals(m, Big)
=============================================================================
