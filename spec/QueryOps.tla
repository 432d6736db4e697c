------------------------------ MODULE QueryOps ------------------------------
(***************************************************************************)
(* The observers of interval sets (v = 1 everywhere) and interval maps.    *)
(* Every operator is a function of the state (the segments s) and of the   *)
(* question; no observer changes the state.                                *)
(***************************************************************************)
EXTENDS MapOps

B(b) == IF b THEN 1 ELSE 0
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Gap(s, i) == <<s[i][2] + 1, s[i + 1][1] - 1>>

\* ------------------------------------------------------------ sizes, ranges
Count(s)     == Cardinality(Dom(s))
\* domains made of points and gaps: a gap holds infinitely many elements
HasOpenGap(s) == \E x \in Dom(s) : x % 2 = 1
UpperGrid(a) == (a + 1) \div 2
LowerGrid(a) == a \div 2
GridLength(s) == SumSeq([i \in DOMAIN s |-> UpperGrid(s[i][2]) - LowerGrid(s[i][1])])
GapAtoms(s) == SumSeq([i \in 1 .. (Len(s) - 1) |-> s[i + 1][1] - s[i][2] - 1])
GapLength(s) == SumSeq([i \in 1 .. (Len(s) - 1) |-> LowerGrid(s[i + 1][1]) - UpperGrid(s[i][2])])
HullLo(s) == IF s = <<>> THEN -1 ELSE s[1][1]
HullHi(s) == IF s = <<>> THEN -1 ELSE s[Len(s)][2]
\* count, has-gap, length, segments, empty, hull, gap sizes
Unary(s) == <<Count(s), B(HasOpenGap(s)), GridLength(s), Len(s), B(s = <<>>), HullLo(s), HullHi(s), GapAtoms(s), GapLength(s)>>
\* the keys as a joining / a splitting set; what lies between the segments
KeysOf(s, join) == Build([x \in Atoms |-> IF x \in Dom(s) THEN 1 ELSE None], IF join THEN {} ELSE Borders(s))
Between(s) == LET gs == { i \in 1 .. (Len(s) - 1) : Gap(s, i)[1] <= Gap(s, i)[2] } IN
              [k \in 1 .. Cardinality(gs) |-> LET i == SetToSortSeq(gs, <)[k] IN <<Gap(s, i)[1], Gap(s, i)[2], 1>>]
\* every element with its value, in ascending order
Elements(s) == Build(Content(s), 0 .. N)

\* ------------------------------------------------------------------ lookup
Overlaps(g, r) == g[1] <= r[2] /\ r[1] <= g[2]
FirstIndex(s, P(_)) == IF \E i \in DOMAIN s : P(s[i]) THEN Min({ i \in DOMAIN s : P(s[i]) }) ELSE Len(s) + 1
FindIndex(s, r)  == FirstIndex(s, LAMBDA g : Overlaps(g, r))
LowerBound(s, r) == FirstIndex(s, LAMBDA g : ~(g[2] < r[1]))   \* first not entirely before r
UpperBound(s, r) == FirstIndex(s, LAMBDA g : r[2] < g[1])      \* first entirely behind r
ContainsKeys(s, r) == RangeAtoms(r) \subseteq Dom(s)
IntersectsKeys(s, r) == RangeAtoms(r) \cap Dom(s) # {}
ContainsPair(s, r, v) == LET f == Content(s) IN \A x \in RangeAtoms(r) : f[x] = v
ValueAt(s, x) == IF Content(s)[x] = None THEN 0 ELSE Content(s)[x]
\* contains, intersects, find, lower bound, upper bound
RangeAns(s, r) == IF IsEmptyRange(r) THEN <<1, 0, 0, 0, 0>>
                  ELSE <<B(ContainsKeys(s, r)), B(IntersectsKeys(s, r)), FindIndex(s, r), LowerBound(s, r), UpperBound(s, r)>>
\* present, index of the segment, value or the neutral one
KeyAns(s, x) == <<B(x \in Dom(s)), FindIndex(s, <<x, x>>), ValueAt(s, x)>>
MeetsPair(m, s, r, v) == LET f == Content(s) IN m.total \/ \E x \in RangeAtoms(r) : f[x] # None /\ Ab(m, CommonValue(m, f[x], v)) # None
PairAns(m, s, r, v) == <<B(ContainsPair(s, r, v)), B(MeetsPair(m, s, r, v))>>

\* --------------------------------------------------------------- relations
\* f, g: the contents of two containers
Leq(m, a, b) == b # None /\ (IF SetSem(m.comb) THEN (a & b) = a ELSE a = b)
Subset(m, f, g) == \A x \in Atoms : f[x] = None \/ Leq(m, f[x], g[x])
KeySubset(f, g) == \A x \in Atoms : f[x] = None \/ g[x] # None
KeysMeet(f, g)  == \E x \in Atoms : f[x] # None /\ g[x] # None
\* a common key counts when combining leaves something behind
Meet(m, f, g)   == m.total \/ \E x \in Atoms : f[x] # None /\ g[x] # None /\ Ab(m, CommonValue(m, f[x], g[x])) # None
\* 0 unrelated, 1 subset, 2 superset, 3 equal
Inclusion(sub, super) == B(sub) + 2 * B(super)
\* lexicographic comparison: of segment sequences, of element sequences
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpSeg(g, h) == IF g[1] # h[1] THEN CmpInt(g[1], h[1]) ELSE IF g[2] # h[2] THEN CmpInt(g[2], h[2]) ELSE CmpInt(g[3], h[3])
RECURSIVE CmpFrom(_, _, _)
CmpFrom(s, t, i) == IF i > Len(s) \/ i > Len(t) THEN CmpInt(Len(s), Len(t))
                    ELSE IF s[i] = t[i] THEN CmpFrom(s, t, i + 1) ELSE CmpSeg(s[i], t[i])
CmpSeq(s, t) == CmpFrom(s, t, 1)
\* the first atom where the contents differ decides: the smaller value, or, when
\* one of them has no element there, the one that has (its next element is
\* smaller) unless the other one has ended
CmpElem(f, g) ==
  LET d == { x \in Atoms : f[x] # g[x] } IN
  IF d = {} THEN 0
  ELSE LET x == Min(d) IN
       IF f[x] # None /\ g[x] # None THEN CmpInt(f[x], g[x])
       ELSE IF f[x] # None THEN (IF \E y \in Atoms : y > x /\ g[y] # None THEN -1 ELSE 1)
       ELSE (IF \E y \in Atoms : y > x /\ f[y] # None THEN 1 ELSE -1)
Protons(s) == SelectSeq(s, LAMBDA g : g[3] # 0)
\* contains, intersects, inclusion, order of segments, order of elements, distinct equality
SetAns(s, t) == LET f == Content(s) g == Content(t) sub == KeySubset(f, g) sup == KeySubset(g, f) IN
                <<B(sup), B(KeysMeet(f, g)), Inclusion(sub, sup), CmpSeq(s, t), CmpElem(f, g), B(s = t)>>
MapAns(m, s, t) == LET f == Content(s) g == Content(t) sub == Subset(m, f, g) sup == Subset(m, g, f) IN
                <<B(sup), B(Meet(m, f, g)), Inclusion(sub, sup), CmpSeq(s, t), CmpElem(f, g), B(Protons(s) = Protons(t))>>
KeysAns(s, t) == LET f == Content(s) g == Content(t) sub == KeySubset(f, g) sup == KeySubset(g, f) IN
                <<B(sup), B(KeysMeet(f, g)), Inclusion(sub, sup)>>
=============================================================================
