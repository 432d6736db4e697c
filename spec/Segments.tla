------------------------------ MODULE Segments ------------------------------
(***************************************************************************)
(* Data layer shared by every specification of this directory.             *)
(*                                                                         *)
(* A domain is modelled by ATOMS 0..N-1.  An atom is the smallest region a *)
(* container can tell apart: an element of a discrete domain; for a        *)
(* continuous domain with dynamic bounds, alternately a grid point and the *)
(* open gap up to the next grid point; for a continuous domain with static *)
(* half-open bounds, a half-open cell.  A non-empty interval is a          *)
(* non-empty contiguous range of atoms, so one specification covers every  *)
(* domain and bound type; the harness supplies the codecs.                 *)
(*                                                                         *)
(* A container is the sequence of its segments <<lo, hi, v>>: the atoms    *)
(* lo..hi carry v.  Sets carry v = 1 everywhere.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC

CONSTANTS N,
          SampleFile    \* "" : every state, range and predicate; else a file that names a selection of them
ASSUME N \in Nat \ {0}

Atoms == 0 .. (N - 1)
None  == -1000000                 \* "not in the container"

\* Large containers cannot be enumerated.  With a sample file the same modules
\* explore the contents (a number per atom, -1 for absent), cuts, ranges and
\* predicates (positions) listed there instead of all of them.
SampleOf == TLCEval(IF SampleFile # "" THEN JsonDeserialize(SampleFile) ELSE [contents |-> <<>>, cuts |-> <<>>, ranges |-> <<>>, predicates |-> <<>>])

\* every step from the sampled states, and no further
OneStep == SampleFile = "" \/ TLCGet("level") < 2

\* All ranges of atoms; <<1,0>> stands for the empty interval.
EmptyRange == <<1, 0>>
Ranges  == { <<l, h>> : l \in Atoms, h \in Atoms } 
NERanges == IF SampleFile # "" THEN { <<SampleOf.ranges[i][1], SampleOf.ranges[i][2]>> : i \in DOMAIN SampleOf.ranges }
            ELSE { r \in Ranges : r[1] <= r[2] }
RangesE == NERanges \cup {EmptyRange}
IsEmptyRange(r) == r[1] > r[2]
InRange(x, r) == r[1] <= x /\ x <= r[2]
RangeAtoms(r) == r[1] .. r[2]

\* ------------------------------------------------------------- content
Content(s) == TLCEval(
  [x \in Atoms |->
     LET at == { i \in DOMAIN s : s[i][1] <= x /\ x <= s[i][2] } IN
     IF at = {} THEN None ELSE s[CHOOSE i \in at : TRUE][3]])
Dom(s) == UNION { s[i][1] .. s[i][2] : i \in DOMAIN s }
DomF(f) == { x \in Atoms : f[x] # None }

\* All segment borders; border b lies between atom b-1 and atom b.
Borders(s) == UNION { {s[i][1], s[i][2] + 1} : i \in DOMAIN s }
RBorders(r) == IF IsEmptyRange(r) THEN {} ELSE {r[1], r[2] + 1}
\* borders strictly inside a segment of s: places where s could be split
Interior(s) == UNION { (s[i][1] + 1) .. s[i][2] : i \in DOMAIN s }

\* The segments of content f when it is cut at the borders C.
Build(f, C) ==
  LET D  == DomF(f)
      st == { x \in D : x = 0 \/ x \in C \/ f[x - 1] # f[x] }
      en == { x \in D : x = N - 1 \/ (x + 1) \in C \/ f[x + 1] # f[x] }
      ss == SetToSortSeq(st, <)
      ee == SetToSortSeq(en, <)
  IN  [i \in 1 .. Len(ss) |-> <<ss[i], ee[i], f[ss[i]]>>]

\* contents with values in V, ways to cut them, and both together
SampledContent(c, W) == [x \in Atoms |-> IF c[x + 1] < 0 THEN None ELSE W[1 + (c[x + 1] % Len(W))]]
SampledCuts(i) == { SampleOf.cuts[i][j] : j \in DOMAIN SampleOf.cuts[i] }
Contents(V) == IF SampleFile = "" THEN [Atoms -> V \cup {None}]
               ELSE LET W == SetToSortSeq(V, <) IN { SampledContent(SampleOf.contents[i], W) : i \in DOMAIN SampleOf.contents }
Cuttings == IF SampleFile = "" THEN SUBSET (1 .. (N - 1)) ELSE { SampledCuts(i) : i \in DOMAIN SampleOf.cuts }
AllCut(V) == IF SampleFile = "" THEN { Build(f, C) : f \in Contents(V), C \in Cuttings }
             ELSE LET W == SetToSortSeq(V, <) IN { Build(SampledContent(SampleOf.contents[i], W), SampledCuts(i)) : i \in DOMAIN SampleOf.contents }
\* predicates on the segments of s, as sets of positions
Predicates(s) == IF SampleFile = "" THEN SUBSET DOMAIN s
                 ELSE { { j \in DOMAIN s : \E k \in DOMAIN SampleOf.predicates[i] : SampleOf.predicates[i][k] = j } : i \in DOMAIN SampleOf.predicates }

\* ------------------------------------------------- representation invariants
Ordered(s) == \A i \in 1 .. (Len(s) - 1) : s[i][2] < s[i + 1][1]
NonEmpty(s) == \A i \in DOMAIN s : s[i][1] <= s[i][2]
Touching(s, i) == s[i][2] + 1 = s[i + 1][1]
MaximallyJoined(s) == \A i \in 1 .. (Len(s) - 1) : ~(Touching(s, i) /\ s[i][3] = s[i + 1][3])

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
=============================================================================
