------------------------------ MODULE Queries ------------------------------
(***************************************************************************)
(* All questions about one container: every state of an interval set       *)
(* ("set") or of a map type, every key, interval, pair and container asked *)
(* about.  The answers are written to OutFile and compared with what the   *)
(* real containers say; the rules that bind the answers to each other are  *)
(* asserted on the way.                                                    *)
(***************************************************************************)
EXTENDS QueryOps, TLC, CSV, IOUtils
CONSTANTS Selected,  \* "set", or names of map types such as "pa-plus-split"
          Asked,     \* subset of {"un", "seg", "rng", "key", "pair", "cont", "keys"}
          Big, OutFile
VARIABLES m, s

\* m: the map type, or this stand-in for interval sets
SetType == [style |-> "set", total |-> FALSE, absorb |-> FALSE, comb |-> "none"]
IsSet == m.style = "set"
NameOf(t) == IF t.style = "set" THEN "set" ELSE TypeName(t)
AllKeySets == AllCut({1})
States(t) == IF t.style = "set" THEN AllKeySets ELSE AllMaps(t, StateVals(t, Big))
Init == m \in { t \in MapTypes \cup {SetType} : NameOf(t) \in Selected } /\ s \in States(m)
Emit(q, arg, ans) == IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s", <<NameOf(m), q, arg, s, ans>>, OutFile)
Ask(q, arg, ans, ok) == Assert(ok, <<"rule violated", m, q, arg, s, ans>>) /\ UNCHANGED <<m, s>> /\ Emit(q, arg, ans)

UnaryQ == /\ "un" \in Asked
          /\ Ask("un", <<>>, Unary(s), GapAtoms(s) + Count(s) = (IF s = <<>> THEN 0 ELSE HullHi(s) - HullLo(s) + 1))
SegQ   == /\ "seg" \in Asked
          /\ \/ Ask("keysJ", <<>>, KeysOf(s, TRUE), MaximallyJoined(KeysOf(s, TRUE)))
             \/ Ask("keysS", <<>>, KeysOf(s, FALSE), Dom(KeysOf(s, FALSE)) = Dom(s))
             \/ Ask("between", <<>>, Between(s), Dom(Between(s)) \cap Dom(s) = {} /\ Len(Between(s)) = Cardinality({ i \in 1 .. (Len(s) - 1) : ~Touching(s, i) }))
             \/ Ask("elements", <<>>, Elements(s), Len(Elements(s)) = Count(s) /\ Content(Elements(s)) = Content(s))
RangeQ == /\ "rng" \in Asked
          /\ \E r \in RangesE : Ask("rng", r, RangeAns(s, r),
               IsEmptyRange(r) \/ ( /\ ContainsKeys(s, r) => IntersectsKeys(s, r)
                                    /\ IntersectsKeys(s, r) <=> LowerBound(s, r) < UpperBound(s, r)
                                    /\ IntersectsKeys(s, r) => FindIndex(s, r) = LowerBound(s, r)
                                    /\ { i \in DOMAIN s : Overlaps(s[i], r) } = LowerBound(s, r) .. (UpperBound(s, r) - 1) ))
KeyQ   == /\ "key" \in Asked
          /\ \E x \in Atoms : Ask("key", <<x, x>>, KeyAns(s, x), (x \in Dom(s)) <=> (KeyAns(s, x)[2] <= Len(s)))
PairQ  == /\ "pair" \in Asked /\ ~IsSet
          /\ \E r \in RangesE, v \in PairVals(m, Big) : Ask("pair", <<r[1], r[2], v>>, PairAns(m, s, r, v), TRUE)
Others == IF "cont" \notin Asked THEN {} ELSE IF IsSet THEN States(m) ELSE AllMaps(m, StateVals(m, Big))
ContAns(t) == IF IsSet THEN SetAns(s, t) ELSE MapAns(m, s, t)
ContQ  == \E t \in Others :
            LET a == ContAns(t) IN
            Ask("cont", t, a,
                /\ (a[4] = 0) = (s = t)
                /\ (a[1] = 1) = (a[3] \in {2, 3})
                /\ (a[5] = 0) = (a[3] = 3)
                /\ s = t => a[6] = 1
                /\ a[3] = 3 => a[6] = 1 \/ Len(s) # Len(t) \/ Borders(s) # Borders(t))
KeysQ  == /\ ~IsSet
          /\ \E t \in IF "keys" \in Asked THEN AllKeySets ELSE {} : Ask("keys", t, KeysAns(s, t), TRUE)
Next == UnaryQ \/ SegQ \/ RangeQ \/ KeyQ \/ PairQ \/ ContQ \/ KeysQ
Spec == Init /\ [][Next]_<<m, s>>

\* the orders are antisymmetric and transitive, their equivalences agree with the
\* equalities, and the element order is the segment order of the element sequences
OrderLaws == \A t, u \in States(m) :
  /\ CmpSeq(s, t) = -CmpSeq(t, s) /\ CmpElem(Content(s), Content(t)) = -CmpElem(Content(t), Content(s))
  /\ CmpElem(Content(s), Content(t)) = CmpSeq(Elements(s), Elements(t))
  /\ CmpSeq(s, t) < 0 /\ CmpSeq(t, u) < 0 => CmpSeq(s, u) < 0
  /\ CmpElem(Content(s), Content(t)) < 0 /\ CmpElem(Content(t), Content(u)) < 0 => CmpElem(Content(s), Content(u)) < 0
WF == Ordered(s) /\ NonEmpty(s)
=============================================================================
