------------------------------- MODULE MapOps -------------------------------
(***************************************************************************)
(* Interval maps.  A map type m is a record                                *)
(*   style   "join" (interval_map) | "split" (split_interval_map)          *)
(*   total   is_total      absorb  absorbs_identities      (the Traits)    *)
(*   comb    the combiner: "plus" "max" "min" "set" "bitor" "bitxor" "cat"  *)
(*           "bitand", "keep" (inplace_identity: the first value stays),     *)
(*           "ins" (inplace_insert into sets) and "star" (multiplication of  *)
(*           powers of two: the value i is 2^(i-8))                          *)
(* Associated values are integers; value 0 is the identity element.  For   *)
(* "set" a value is the bit mask of a finite set, for "cat" a base 4       *)
(* numeral whose digits 1..3 are the characters of a string.               *)
(* A map is seen as the pair of its content (atom -> value or None) and    *)
(* its borders; every operator computes the new content and the candidate  *)
(* borders and cuts the segments accordingly (joining maps: no borders).   *)
(***************************************************************************)
EXTENDS Segments, Bitwise

Combs == {"plus", "max", "min", "set", "bitor", "bitxor", "cat", "bitand", "keep", "ins", "star"}

RECURSIVE CatShift(_)
CatShift(b) == IF b = 0 THEN 1 ELSE 4 * CatShift(b \div 4)
Comb(c, a, b) ==
  CASE c = "plus"   -> a + b
    [] c = "max"    -> Max2(a, b)
    [] c = "min"    -> Min2(a, b)
    [] c \in {"set", "bitor", "ins"} -> a | b
    [] c = "bitxor" -> a ^^ b
    [] c = "bitand" -> a & b
    [] c = "keep"   -> a
    [] c = "star"   -> IF a = 0 \/ b = 0 THEN 0 ELSE a + b - 8
    [] c = "cat"    -> a * CatShift(b) + b
Inv(c, a, b) ==
  CASE c = "plus"   -> a - b
    [] c = "max"    -> Min2(a, b)
    [] c = "min"    -> Max2(a, b)
    [] c \in {"set", "bitor"} -> a - (a & b)
    [] c = "bitxor" -> a & b
    [] c = "bitand" -> a ^^ b
    [] c \in {"keep", "ins"} -> IF a = b THEN 0 ELSE a
    [] c = "star"   -> a - b + 8
HasInv(c) == c # "cat"
SetSem(c) == c \in {"set", "ins"}
\* codomains over which subtraction is total on total maps
Invertible(c) == c = "plus"
Neg(c, v) == -v

MStyles == {"join", "split"}

MapTypes == [style : MStyles, total : BOOLEAN, absorb : BOOLEAN, comb : Combs]
TypeName(m) == (IF m.total THEN "t" ELSE "p") \o (IF m.absorb THEN "a" ELSE "e") \o "-" \o m.comb \o "-" \o m.style
\* value pools of the exhaustive models: associated values of the states, of
\* pair operands, and of map operands
Bits(m) == m.comb \in {"set", "bitor", "bitxor", "bitand", "ins"}
StateVals(m, big) == (IF m.absorb THEN {} ELSE {0}) \cup
                     (IF Bits(m) THEN (IF m.absorb \/ big THEN {1, 3} ELSE {3})
                      ELSE IF m.comb = "plus" THEN (IF m.absorb THEN {1, -1} ELSE {1}) \cup (IF big THEN {2} ELSE {})
                      ELSE IF m.absorb \/ big THEN {1, 2} ELSE {1})
\* with these a sum can equal a neighbour's value, annihilate one, and open a gap next to an equal value
PairVals(m, big) == IF m.comb = "plus" THEN {0, 1, -1, 2}
                    ELSE IF Bits(m) THEN {0, 2} \cup (IF big THEN {1, 3} ELSE {1}) ELSE {0, 1, 2}
OperandVals(m, big) == (IF m.absorb \/ ~big THEN {} ELSE {0}) \cup
                       (IF Bits(m) THEN {2} \cup (IF big THEN {1} ELSE {}) ELSE {1} \cup (IF big THEN {2} ELSE {}))

\* content f with identities removed when the map absorbs them
Absorb(m, f) == IF m.absorb THEN [x \in Atoms |-> IF f[x] = 0 THEN None ELSE f[x]] ELSE f
MCanon(m, f, C) == Build(Absorb(m, f), IF m.style = "join" THEN {} ELSE C)

NoIdentity(s) == \A i \in DOMAIN s : s[i][3] # 0
MapWF(m, s) == /\ Ordered(s) /\ NonEmpty(s)
               /\ (m.style = "join" => MaximallyJoined(s))
               /\ (m.absorb => NoIdentity(s))

\* all well-formed states with values in V
AllMaps(m, V) ==
  LET W == IF m.absorb THEN V \ {0} ELSE V IN
  IF m.style = "join" THEN { Build(f, {}) : f \in Contents(W) } ELSE AllCut(W)

Idle(m, r, v) == IsEmptyRange(r) \/ (m.absorb /\ v = 0)

\* ------------------------------------------------------- pair operations
MAdd(m, s, r, v) ==
  IF Idle(m, r, v) THEN s
  ELSE LET f == Content(s) IN
       MCanon(m, [x \in Atoms |-> IF ~InRange(x, r) THEN f[x]
                                  ELSE IF f[x] = None THEN v ELSE Comb(m.comb, f[x], v)],
              Borders(s) \cup RBorders(r))
MSub(m, s, r, v) ==
  IF Idle(m, r, v) THEN s
  ELSE LET f == Content(s) IN
       IF m.total /\ Invertible(m.comb)
       THEN MCanon(m, [x \in Atoms |-> IF ~InRange(x, r) THEN f[x]
                                       ELSE IF f[x] = None THEN Neg(m.comb, v) ELSE Inv(m.comb, f[x], v)],
                   Borders(s) \cup RBorders(r))
       ELSE MCanon(m, [x \in Atoms |-> IF ~InRange(x, r) \/ f[x] = None THEN f[x] ELSE Inv(m.comb, f[x], v)],
                   Borders(s) \cup RBorders(r))
MInsert(m, s, r, v) ==
  IF Idle(m, r, v) THEN s
  ELSE LET f == Content(s) IN
       MCanon(m, [x \in Atoms |-> IF InRange(x, r) /\ f[x] = None THEN v ELSE f[x]],
              Borders(s) \cup (RBorders(r) \ Interior(s)))
MEraseKeys(m, s, K) ==
  LET f == Content(s) IN MCanon(m, [x \in Atoms |-> IF x \in K THEN None ELSE f[x]], Borders(s))
MErase(m, s, r) == IF IsEmptyRange(r) THEN s ELSE MEraseKeys(m, s, RangeAtoms(r))
MEraseSeg(m, s, r, v) ==
  IF Idle(m, r, v) THEN s
  ELSE LET f == Content(s) IN
       MCanon(m, [x \in Atoms |-> IF InRange(x, r) /\ f[x] = v THEN None ELSE f[x]], Borders(s))
MSet(m, s, r, v) ==
  IF IsEmptyRange(r) THEN s
  ELSE IF m.absorb /\ v = 0 THEN MErase(m, s, r)
  ELSE LET f == Content(s) IN
       MCanon(m, [x \in Atoms |-> IF InRange(x, r) THEN v ELSE f[x]],
              (Borders(s) \ ((r[1] + 1) .. r[2])) \cup RBorders(r))
\* selection of the keys K (cut at the borders KB of the selector)
MSelect(m, s, K, KB) ==
  LET f == Content(s) IN MCanon(m, [x \in Atoms |-> IF x \in K THEN f[x] ELSE None], Borders(s) \cup KB)
MAndR(m, s, r) == MSelect(m, s, RangeAtoms(r), RBorders(r))
CommonValue(m, a, b) == IF SetSem(m.comb) THEN a & b ELSE Comb(m.comb, a, b)
MAndSeg(m, s, r, v) ==
  IF m.total THEN MAdd(m, s, r, v)
  ELSE LET f == Content(s) IN
       MCanon(m, [x \in Atoms |-> IF InRange(x, r) /\ f[x] # None THEN CommonValue(m, f[x], v) ELSE None],
              Borders(s) \cup RBorders(r))
\* symmetric difference of the values at a common key
FlipValue(m, a, b) == IF SetSem(m.comb) THEN a ^^ b ELSE 0
MZero(m, s) == MCanon(m, [x \in Atoms |-> IF x \in Dom(s) THEN 0 ELSE None], Borders(s))
MFlip(m, s, r, v) ==
  IF m.total THEN (IF m.absorb THEN <<>> ELSE MZero(m, MAdd(m, s, r, v)))
  ELSE IF IsEmptyRange(r) THEN s
  ELSE LET f == Content(s) IN
       MCanon(m, [x \in Atoms |-> IF ~InRange(x, r) THEN f[x]
                                  ELSE IF f[x] = None THEN v ELSE FlipValue(m, f[x], v)],
              Borders(s) \cup RBorders(r))

\* -------------------------------------------- operations with whole maps
\* Every one is the sequence of its segments' operations; since the segments
\* are disjoint the order does not matter, which SegmentOrderIrrelevant checks.
SegR(g) == <<g[1], g[2]>>
MFold(Op(_, _, _), s, t) == FoldLeft(LAMBDA acc, g : Op(acc, SegR(g), g[3]), s, t)
MAddC(m, s, t)   == MFold(LAMBDA a, r, v : MAdd(m, a, r, v), s, t)
MSubC(m, s, t)   == MFold(LAMBDA a, r, v : MSub(m, a, r, v), s, t)
MInsertC(m, s, t) == MFold(LAMBDA a, r, v : MInsert(m, a, r, v), s, t)
MEraseC(m, s, t) == MFold(LAMBDA a, r, v : MEraseSeg(m, a, r, v), s, t)
MEraseK(m, s, t) == MEraseKeys(m, s, Dom(t))
MAndK(m, s, t)   == MSelect(m, s, Dom(t), Borders(t))
MAndC(m, s, t)   ==
  IF m.total THEN MAddC(m, s, t)
  ELSE LET f == Content(s) g == Content(t) IN
       MCanon(m, [x \in Atoms |-> IF f[x] # None /\ g[x] # None THEN CommonValue(m, f[x], g[x]) ELSE None],
              Borders(s) \cup Borders(t))
MFlipC(m, s, t)  ==
  IF m.total THEN (IF m.absorb THEN <<>> ELSE MZero(m, MAddC(m, s, t)))
  ELSE MFold(LAMBDA a, r, v : MFlip(m, a, r, v), s, t)

\* -------------------------------------------------------------- dispatch
PairOps == {"add", "sub", "ins", "era", "set", "and", "flip"}
KeyOps  == {"eraK", "andK"}
MapOpsC == {"addC", "subC", "insC", "eraC", "andC", "flipC"}
SetOpsC == {"eraKC", "andKC"}
MOpP(op, m, s, r, v) ==
  CASE op = "add" -> MAdd(m, s, r, v) [] op = "sub" -> MSub(m, s, r, v)
    [] op = "ins" -> MInsert(m, s, r, v) [] op = "era" -> MEraseSeg(m, s, r, v)
    [] op = "set" -> MSet(m, s, r, v) [] op = "and" -> MAndSeg(m, s, r, v)
    [] op = "flip" -> MFlip(m, s, r, v)
MOpK(op, m, s, r) == CASE op = "eraK" -> MErase(m, s, r) [] op = "andK" -> MAndR(m, s, r)
MOpC(op, m, s, t) ==
  CASE op = "addC" -> MAddC(m, s, t) [] op = "subC" -> MSubC(m, s, t)
    [] op = "insC" -> MInsertC(m, s, t) [] op = "eraC" -> MEraseC(m, s, t)
    [] op = "andC" -> MAndC(m, s, t) [] op = "flipC" -> MFlipC(m, s, t)
    [] op = "eraKC" -> MEraseK(m, s, t) [] op = "andKC" -> MAndK(m, s, t)

\* operations that mean nothing for the map type: subtraction needs an inverse,
\* on total maps over values without additive inverse it is left to "partial" meaning
Applicable(m, op) == op \in {"sub", "subC"} => HasInv(m.comb) /\ ~(m.total /\ m.comb \in {"max", "min", "keep", "bitand", "star"})

\* ------------------------------- element-level meaning, stated per key
\* a: value of the key in the map (or None), inr: key in the operand, v: operand's value
Ab(m, x) == IF m.absorb /\ x = 0 THEN None ELSE x
KeyMeaning(op, m, a, inr, v) ==
  CASE op = "add"  -> IF ~inr \/ (m.absorb /\ v = 0) THEN a ELSE IF a = None THEN v ELSE Ab(m, Comb(m.comb, a, v))
    [] op = "sub"  -> IF ~inr \/ (m.absorb /\ v = 0) THEN a
                      ELSE IF a = None THEN (IF m.total /\ Invertible(m.comb) THEN Comb(m.comb, 0, -v) ELSE None)
                      ELSE Ab(m, Inv(m.comb, a, v))
    [] op = "ins"  -> IF inr /\ a = None THEN Ab(m, v) ELSE a
    [] op = "era"  -> IF inr /\ a = v THEN None ELSE a
    [] op = "set"  -> IF inr THEN Ab(m, v) ELSE a
    [] op = "eraK" -> IF inr THEN None ELSE a
    [] op = "andK" -> IF inr THEN a ELSE None
    [] op = "and"  -> IF m.total THEN (IF ~inr \/ (m.absorb /\ v = 0) THEN a ELSE IF a = None THEN v ELSE Ab(m, Comb(m.comb, a, v)))
                      ELSE IF inr /\ a # None THEN Ab(m, CommonValue(m, a, v)) ELSE None
    [] op = "flip" -> IF m.total THEN Ab(m, IF a # None \/ (inr /\ ~(m.absorb /\ v = 0)) THEN 0 ELSE None)
                      ELSE IF ~inr THEN a ELSE IF a = None THEN Ab(m, v) ELSE Ab(m, FlipValue(m, a, v))
PairMeaning(op, m, s, r, v, q) ==
  \A x \in Atoms : Content(q)[x] = KeyMeaning(op, m, Content(s)[x], InRange(x, r), v)
PointOp(op) == CASE op = "addC" -> "add" [] op = "subC" -> "sub" [] op = "insC" -> "ins" [] op = "eraC" -> "era"
                 [] op = "andC" -> "and" [] op = "flipC" -> "flip" [] op = "eraKC" -> "eraK" [] op = "andKC" -> "andK"
ContMeaning(op, m, s, t, q) ==
  \A x \in Atoms : Content(q)[x] = KeyMeaning(PointOp(op), m, Content(s)[x], x \in Dom(t), Content(t)[x])
=============================================================================
