---------------------------- MODULE IntervalOps ----------------------------
(***************************************************************************)
(* Single intervals.  An interval is written <<lo, up, b>>: two grid       *)
(* values and the bounds, b = 2 * (lower included) + (upper included).     *)
(* Any lo, up is a valid description; many describe the empty interval.    *)
(* What it denotes depends on the kind of the domain:                      *)
(*   "d"  discrete: grid values are the elements                           *)
(*   "c"  continuous: atom 2k is the point k, atom 2k+1 the open gap       *)
(*        between the points k and k+1                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANT G                       \* grid values 0..G
Grid == 0 .. G
Raws == Grid \X Grid \X (0 .. 3)
LClosed(i) == i[3] >= 2
RClosed(i) == i[3] % 2 = 1
Scale(kind) == IF kind = "d" THEN 1 ELSE 2
Den(kind, i) ==
  LET k == Scale(kind) IN
  { x \in (k * i[1]) .. (k * i[2]) : (LClosed(i) \/ x # k * i[1]) /\ (RClosed(i) \/ x # k * i[2]) }
AtomsOf(kind) == 0 .. (Scale(kind) * G)
EmptyR == <<1, 0>>
RangeOf(S) == IF S = {} THEN EmptyR ELSE <<Min(S), Max(S)>>
Bit(b) == IF b THEN 1 ELSE 0
Cmp3(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

\* ---- meaning of the relations on sets of elements A, B
Exclusive(A, B) == A = {} \/ B = {} \/ Max(A) < Min(B)
TouchesD(A, B)  == A # {} /\ B # {} /\ Max(A) + 1 = Min(B)
LessD(A, B) == A # {} /\ B # {} /\ (Min(A) < Min(B) \/ (Min(A) = Min(B) /\ Max(A) < Max(B)))
HullD(A, B) == RangeOf(A \cup B)
LeftSub(A, M)  == RangeOf({ x \in A : M = {} \/ x > Max(M) })    \* A without what reaches up to M's end
RightSub(A, M) == RangeOf({ x \in A : M = {} \/ x < Min(M) })
Inner(A, B) == IF A = {} \/ B = {} THEN EmptyR
               ELSE IF Max(A) < Min(B) THEN RangeOf((Max(A) + 1) .. (Min(B) - 1))
               ELSE IF Max(B) < Min(A) THEN RangeOf((Max(B) + 1) .. (Min(A) - 1)) ELSE EmptyR
\* grid distance of the hulls: elements between (discrete), length between (continuous)
Distance(kind, i, j) ==
  LET A == Den(kind, i) B == Den(kind, j) IN
  IF A = {} \/ B = {} THEN 0
  ELSE IF kind = "d" THEN (IF Max(A) < Min(B) THEN Min(B) - Max(A) - 1 ELSE IF Max(B) < Min(A) THEN Min(A) - Max(B) - 1 ELSE 0)
  ELSE IF i[2] < j[1] THEN j[1] - i[2] ELSE IF j[2] < i[1] THEN i[1] - j[2] ELSE 0

\* empty, first and last atom, number of atoms, has a gap, length, membership of every atom
UnaryI(kind, i) ==
  LET A == Den(kind, i) IN
  <<Bit(A = {}), RangeOf(A)[1], RangeOf(A)[2], Cardinality(A), Bit(kind = "c" /\ \E x \in A : x % 2 = 1),
    IF A = {} THEN 0 ELSE IF kind = "d" THEN Cardinality(A) ELSE i[2] - i[1],
    [n \in 1 .. (Scale(kind) * G + 1) |-> Bit((n - 1) \in A)]>>
\* equal, less, lower order, upper order (2 when one is empty), exclusive, contains, intersects, touches,
\* then the ranges: intersection, hull, left and right difference, complement, and the distance
PairI(kind, i, j) ==
  LET A == Den(kind, i) B == Den(kind, j) e == A = {} \/ B = {} IN
  <<Bit(A = B), Bit(LessD(A, B)), IF e THEN 2 ELSE Cmp3(Min(A), Min(B)), IF e THEN 2 ELSE Cmp3(Max(A), Max(B)),
    Bit(Exclusive(A, B)), Bit(B \subseteq A), Bit(A \cap B # {}), IF e THEN 2 ELSE Bit(TouchesD(A, B)),
    RangeOf(A \cap B), HullD(A, B), LeftSub(A, B), RightSub(A, B), Inner(A, B), Distance(kind, i, j)>>
\* intervals made of two elements: the hull, and the span with bounds b
PointsI(kind, x, y, b) == <<RangeOf(Den(kind, <<x, x, 3>>)), RangeOf(Den(kind, <<IF x <= y THEN x ELSE y, IF x <= y THEN y ELSE x, 3>>)),
                            RangeOf(Den(kind, <<IF x <= y THEN x ELSE y, IF x <= y THEN y ELSE x, b>>))>>

(***************************************************************************)
(* The library works on bounds, not on elements.  Below are its            *)
(* algorithms for dynamically bounded intervals (any mixture of bounds);   *)
(* IntervalAlgebra checks that they compute what the meaning demands.      *)
(***************************************************************************)
FirstA(i) == IF LClosed(i) THEN i[1] ELSE i[1] + 1
LastA(i)  == IF RClosed(i) THEN i[2] ELSE i[2] - 1
EmptyA(kind, i) ==
  IF kind = "d"
  THEN IF i[3] = 3 THEN i[2] < i[1] ELSE IF i[3] = 0 THEN i[2] <= i[1] + 1 ELSE i[2] <= i[1]
  ELSE i[2] < i[1] \/ (i[2] = i[1] /\ i[3] # 3)
ExclusiveA(kind, i, j) ==
  \/ EmptyA(kind, i) \/ EmptyA(kind, j)
  \/ IF kind = "d" THEN LastA(i) < FirstA(j)
     ELSE i[2] < j[1] \/ (i[2] = j[1] /\ ~(RClosed(i) /\ LClosed(j)))
LowerLessA(kind, i, j) == IF kind = "d" THEN FirstA(i) < FirstA(j) ELSE i[1] < j[1] \/ (i[1] = j[1] /\ LClosed(i) /\ ~LClosed(j))
UpperLessA(kind, i, j) == IF kind = "d" THEN LastA(i) < LastA(j) ELSE i[2] < j[2] \/ (i[2] = j[2] /\ ~RClosed(i) /\ RClosed(j))
\* bounded values: <<value, included>>
BLo(i) == <<i[1], Bit(LClosed(i))>>
BUp(i) == <<i[2], Bit(RClosed(i))>>
Rev(b) == <<b[1], 1 - b[2]>>
Bounded(l, u) == <<l[1], u[1], 2 * l[2] + u[2]>>
IdentityA == <<0, 0, 2>>
AndA(kind, i, j) == IF EmptyA(kind, i) \/ EmptyA(kind, j) THEN IdentityA
                    ELSE Bounded(IF LowerLessA(kind, i, j) THEN BLo(j) ELSE BLo(i), IF UpperLessA(kind, i, j) THEN BUp(i) ELSE BUp(j))
HullA(kind, i, j) == IF EmptyA(kind, j) THEN i ELSE IF EmptyA(kind, i) THEN j
                     ELSE Bounded(IF LowerLessA(kind, i, j) THEN BLo(i) ELSE BLo(j), IF UpperLessA(kind, i, j) THEN BUp(j) ELSE BUp(i))
LeftSubA(kind, i, m)  == IF ExclusiveA(kind, m, i) THEN i ELSE Bounded(Rev(BUp(m)), BUp(i))
RightSubA(kind, i, m) == IF ExclusiveA(kind, i, m) THEN i ELSE Bounded(BLo(i), Rev(BLo(m)))
InnerA(kind, i, j) ==
  IF EmptyA(kind, i) \/ EmptyA(kind, j) THEN IdentityA
  ELSE IF ExclusiveA(kind, i, j) THEN RightSubA(kind, LeftSubA(kind, HullA(kind, i, j), i), j)
  ELSE IF ExclusiveA(kind, j, i) THEN RightSubA(kind, LeftSubA(kind, HullA(kind, j, i), j), i)
  ELSE IdentityA
TouchesA(kind, i, j) == IF kind = "d" THEN LastA(i) + 1 = FirstA(j) ELSE i[2] = j[1] /\ (RClosed(i) # LClosed(j))
ContainsA(kind, i, j) == \/ EmptyA(kind, j)
                         \/ /\ ~LowerLessA(kind, j, i) /\ ~UpperLessA(kind, i, j)
Refines(kind, i, j) ==
  LET A == Den(kind, i) B == Den(kind, j) IN
  /\ EmptyA(kind, i) = (A = {})
  /\ ExclusiveA(kind, i, j) = Exclusive(A, B)
  /\ (A # {} /\ B # {}) => /\ LowerLessA(kind, i, j) = (Min(A) < Min(B))
                           /\ UpperLessA(kind, i, j) = (Max(A) < Max(B))
                           /\ TouchesA(kind, i, j) = TouchesD(A, B)
                           /\ ContainsA(kind, i, j) = (B \subseteq A)
  /\ RangeOf(Den(kind, AndA(kind, i, j))) = RangeOf(A \cap B)
  /\ RangeOf(Den(kind, HullA(kind, i, j))) = HullD(A, B)
  /\ RangeOf(Den(kind, LeftSubA(kind, i, j))) = LeftSub(A, B)
  /\ RangeOf(Den(kind, RightSubA(kind, i, j))) = RightSub(A, B)
  /\ RangeOf(Den(kind, InnerA(kind, i, j))) = Inner(A, B)
=============================================================================
