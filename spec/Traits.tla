------------------------------- MODULE Traits -------------------------------
(***************************************************************************)
(* Four maps with the four traits, one combiner and one style, run through *)
(* the same history.  What may differ between them is only what the traits *)
(* say:                                                                    *)
(*   P  the partial absorber holds the partial enricher's keys whose value *)
(*      is not the identity element, with the same values                  *)
(*   T  the same for the two total maps                                    *)
(*   A  the partial and the total absorber hold the same                   *)
(*   E  the partial and the total enricher hold the same                   *)
(* Claims(op) names the relations an operation keeps.  Histories from an   *)
(* empty start are explored with operations that keep all four (History);  *)
(* every single operation is taken from every joint state and written out  *)
(* with the relations it must keep (Joint).  For additive values "undo"    *)
(* operations lead the total maps back to the function they had.           *)
(***************************************************************************)
EXTENDS MapOps, SetOps, CSV, IOUtils
CONSTANTS Selected,  \* "plus-join", ...
          OpSet, Big, OutFile
VARIABLES c, q

Name(t) == t.comb \o "-" \o t.style
Families == { t \in [comb : Combs, style : MStyles] : Name(t) \in Selected }
KindsOf == {"pa", "pe", "ta", "te"}
Type(k) == [style |-> c.style, comb |-> c.comb, total |-> k \in {"ta", "te"}, absorb |-> k \in {"pa", "ta"}]

Strip(f) == [x \in Atoms |-> IF f[x] = 0 THEN None ELSE f[x]]
Value(f) == [x \in Atoms |-> IF f[x] = None THEN 0 ELSE f[x]]     \* the total function
Holds(rel, z) ==
  CASE rel = "P" -> Content(z.pa) = Strip(Content(z.pe))
    [] rel = "T" -> Content(z.ta) = Strip(Content(z.te))
    [] rel = "A" -> Content(z.pa) = Content(z.ta)
    [] rel = "E" -> Content(z.pe) = Content(z.te)
    [] rel = "U" -> Value(Content(z.ta)) = Value(Content(z.te))
Rels == {"P", "T", "A", "E"}

\* which relations an operation keeps, by the kind of value
Sets == {"set"}
SubLike == {"set", "bitor"}            \* subtraction leaves the identity alone
Claims(op) ==
  CASE op \in {"add", "addC"} -> IF c.comb = "min" THEN {"A", "E"} ELSE Rels
    [] op \in {"set", "eraK", "eraKC", "andK", "andKC", "era", "eraC"} -> Rels
    [] op \in {"ins", "insC"} -> {"A", "E"}
    [] op \in {"sub", "subC"} -> (IF c.comb \in SubLike THEN Rels ELSE {}) \cup (IF c.comb = "plus" THEN {"T"} ELSE {})
                                 \cup (IF c.comb = "bitxor" THEN {"A", "E"} ELSE {})
    [] op \in {"and", "andC"} -> (IF c.comb \in Sets THEN {"P"} ELSE {}) \cup (IF c.comb = "min" THEN {} ELSE {"T"})
    [] op \in {"flip", "flipC"} -> {"T"} \cup (IF c.comb \in Sets THEN {"P"} ELSE {})
    [] op \in {"undo", "redo", "undoC", "redoC"} -> {"T", "U"}

\* ------------------------------------------------------------- operations
\* the same operand for all four; absorbing maps hold it without identities
OnPair(op, r, v) == [k \in KindsOf |-> MOpP(op, Type(k), q[k], r, v)]
OnKey(op, r) == [k \in KindsOf |-> MOpK(op, Type(k), q[k], r)]
Operand(k, t) == IF Type(k).absorb THEN SelectSeq(t, LAMBDA g : g[3] # 0) ELSE t
OnMap(op, t) == [k \in KindsOf |-> MOpC(op, Type(k), q[k], Operand(k, t))]
OnKeys(op, t) == [k \in KindsOf |-> MOpC(op, Type(k), q[k], t)]
\* add and subtract the same, or the other way round
There(op) == IF op \in {"undo", "undoC"} THEN "add" ELSE "sub"
Back(op)  == IF op \in {"undo", "undoC"} THEN "sub" ELSE "add"
UndoPair(op, r, v) == [k \in KindsOf |-> MOpP(Back(op), Type(k), MOpP(There(op), Type(k), q[k], r, v), r, v)]
UndoMap(op, t) == [k \in KindsOf |-> LET u == Operand(k, t) IN MOpC(Back(op) \o "C", Type(k), MOpC(There(op) \o "C", Type(k), q[k], u), u)]

Vals == PairVals([comb |-> c.comb, absorb |-> FALSE], Big)
MapOperands == { Build(f, {}) : f \in Contents(OperandVals([comb |-> c.comb, absorb |-> FALSE], TRUE)) }
KeyOperands == { Build(f, {}) : f \in Contents({1}) }
Judged(op) == /\ op \in OpSet /\ Claims(op) # {}
              /\ (op \in {"sub", "subC"} => HasInv(c.comb))
              /\ (op \in {"undo", "redo", "undoC", "redoC"} => c.comb = "plus")

Act(Do(_, _, _, _)) ==
  \/ \E op \in PairOps \cup {"undo", "redo"}, r \in RangesE, v \in Vals :
       /\ Judged(op) /\ ~(op = "flip" /\ v = 0)
       /\ Do(op, <<r[1], r[2], v>>, IF op \in PairOps THEN OnPair(op, r, v) ELSE UndoPair(op, r, v), <<r, v>>)
  \/ \E op \in KeyOps, r \in RangesE : Judged(op) /\ Do(op, r, OnKey(op, r), <<>>)
  \/ \E op \in MapOpsC \cup {"undoC", "redoC"} :
       Judged(op) /\ \E t \in MapOperands : Do(op, t, IF op \in MapOpsC THEN OnMap(op, t) ELSE UndoMap(op, t), <<>>)
  \/ \E op \in SetOpsC : Judged(op) /\ \E t \in KeyOperands : Do(op, t, OnKeys(op, t), <<>>)

\* total maps may differ from the partial ones where subtraction has been used; those states are
\* joint states of T only, and every state of the enrichers gives one
JointStates(fam) ==
  { [k \in KindsOf |-> LET ty == [style |-> fam.style, comb |-> fam.comb, total |-> k \in {"ta", "te"}, absorb |-> k \in {"pa", "ta"}] IN
       MCanon(ty, f, IF k \in {"pa", "ta"} THEN C1 ELSE C2)] :
    f \in Contents(StateVals([comb |-> fam.comb, absorb |-> FALSE], TRUE)), 
    C1 \in IF fam.style = "join" THEN { {} } ELSE { {}, 1 .. (N - 1) }, C2 \in IF fam.style = "join" THEN { {} } ELSE Cuttings }

\* every operation from every joint state
Write(op, arg, z) == IF OutFile = "" THEN TRUE
  ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s;%6$s;%7$s;%8$s;%9$s;%10$s;%11$s;%12$s",
                <<Name(c), op, arg, q.pa, q.pe, q.ta, q.te, z.pa, z.pe, z.ta, z.te, Claims(op)>>, OutFile)
Keeps(op, z) == \A rel \in Claims(op) : Holds(rel, z)
Returns(op, z) == op \in {"undo", "redo", "undoC", "redoC"} => \A k \in {"ta", "te"} : Value(Content(z[k])) = Value(Content(q[k]))
Joint(op, arg, z, unused) == /\ Assert(Keeps(op, z) /\ Returns(op, z), <<"relation broken", Name(c), op, arg, q, z>>)
                             /\ Write(op, arg, z) /\ UNCHANGED <<c, q>>
JInit == c \in Families /\ q \in JointStates(c)
JNext == Act(Joint)
JSpec == JInit /\ [][JNext]_<<c, q>>

\* histories from the empty maps with operations that keep all relations
HInit == c \in Families /\ q = [k \in KindsOf |-> <<>>]
Step(op, arg, z, unused) == Claims(op) = Rels /\ q' = z /\ UNCHANGED c
HNext == Act(Step)
HSpec == HInit /\ [][HNext]_<<c, q>>
SmallV == \A k \in KindsOf : \A i \in DOMAIN q[k] : q[k][i][3] \in -2 .. 4
Same == \A rel \in Rels : Holds(rel, q)
WF == \A k \in KindsOf : MapWF(Type(k), q[k])
=============================================================================
