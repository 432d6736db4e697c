--------------------------- MODULE IntervalAlgebra ---------------------------
(***************************************************************************)
(* Every description of an interval, every question about it, every second *)
(* interval.  Invariant Algorithms: the bound-wise algorithms refine the   *)
(* element-wise meaning; Laws: what the operations owe each other.         *)
(***************************************************************************)
EXTENDS IntervalOps, CSV, IOUtils
CONSTANTS Kinds, Bounds, OutFile
VARIABLES kind, i
vars == <<kind, i>>
Some == { r \in Raws : r[3] \in Bounds }
Init == kind \in Kinds /\ i \in Some
Emit(q, arg, ans) == (IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s", <<kind, q, arg, i, ans>>, OutFile)) /\ UNCHANGED vars
Next == \/ Emit("un", <<>>, UnaryI(kind, i))
        \/ \E j \in Some : Emit("pair", j, PairI(kind, i, j))
        \/ i[2] = 0 /\ \E y \in Grid : Emit("pts", <<i[1], y, i[3]>>, PointsI(kind, i[1], y, i[3]))
Spec == Init /\ [][Next]_vars
Algorithms == \A j \in Some : Refines(kind, i, j)
D(x) == Den(kind, x)
Laws == \A j \in Some :
  /\ LessD(D(i), D(j)) => ~LessD(D(j), D(i)) /\ D(i) # D(j)
  /\ (D(i) # {} /\ D(j) # {}) => (LessD(D(i), D(j)) \/ LessD(D(j), D(i)) \/ D(i) = D(j))
  /\ TouchesD(D(i), D(j)) => Exclusive(D(i), D(j)) /\ Inner(D(i), D(j)) = EmptyR
  /\ Exclusive(D(i), D(j)) => D(i) \cap D(j) = {}
  /\ \A k \in Some : LessD(D(i), D(j)) /\ LessD(D(j), D(k)) => LessD(D(i), D(k))
=============================================================================
