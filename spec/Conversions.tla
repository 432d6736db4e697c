----------------------------- MODULE Conversions -----------------------------
(***************************************************************************)
(* Conversions: the state is a container of some kind (an interval         *)
(* container of one of the combining styles, or an element container) and  *)
(* the transitions construct or assign a container of another kind from    *)
(* it, or normalise it in place (join, absorb_identities).  No transition  *)
(* except absorb_identities changes the content; the segmentation is that  *)
(* of the destination.                                                     *)
(***************************************************************************)
EXTENDS SetOps, MapOps, CSV, IOUtils
CONSTANTS Selected,   \* "set" and names of map types (joining ones)
          Big, OutFile
VARIABLES m, kind, s, op     \* op: the last conversion

SetType == [style |-> "set", total |-> FALSE, absorb |-> FALSE, comb |-> "none"]
IsSet == m.style = "set"
NameOf(t) == IF t.style = "set" THEN "set" ELSE TypeName(t)
Kinds(t) == IF t.style = "set" THEN {"join", "sep", "split", "element"} ELSE {"join", "split", "element"}
Values(t) == IF t.style = "set" THEN {1} ELSE IF t.absorb THEN StateVals(t, Big) \ {0} ELSE StateVals(t, Big)
\* the states of a kind: joined, cut anywhere, or one segment per element
StatesOf(t, k) == CASE k = "join" -> { Build(f, {}) : f \in Contents(Values(t)) }
                    [] k \in {"sep", "split"} -> AllCut(Values(t))
                    [] k = "element" -> { Build(f, 0 .. N) : f \in Contents(Values(t)) }
WFK(k, q) == /\ Ordered(q) /\ NonEmpty(q)
             /\ (k = "join" => MaximallyJoined(q)) /\ (k = "element" => \A i \in DOMAIN q : q[i][1] = q[i][2])
\* the segments of a container of kind k that takes over q
As(k, q) == CASE k = "join" -> Build(Content(q), {})
              [] k \in {"sep", "split"} -> q
              [] k = "element" -> Build(Content(q), 0 .. N)
WithoutIdentities(q) == SelectSeq(q, LAMBDA g : g[3] # 0)

Init == /\ m \in { t \in MapTypes \cup {SetType} : NameOf(t) \in Selected }
        /\ kind \in Kinds(m) /\ s \in StatesOf(m, kind) /\ op = "none"
Emit(o, arg, post) == IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s;%6$s", <<NameOf(m), o, arg, kind, s, post>>, OutFile)
Step(o, arg, k2, post) == /\ s' = post /\ kind' = k2 /\ op' = o /\ UNCHANGED m /\ Emit(o, arg, post)

\* construct or assign a container of kind k2 from this one
Convert == \E k2 \in Kinds(m) : ~(k2 = "element" /\ kind = "element") /\ Step("to-" \o k2, <<>>, k2, As(k2, s))
\* what the source of a functor joins or absorbs before the result takes it over
Join    == kind # "element" /\ Step("join", <<>>, kind, Build(Content(s), {}))
AbsorbI == ~IsSet /\ Step("absorb", <<>>, kind, WithoutIdentities(s))
\* an absorbing map fed with the segments of an enriching one
IntoAbsorber == ~IsSet /\ ~m.absorb /\ Step("absorber", <<>>, kind, As(kind, WithoutIdentities(s)))
\* a container made of one element or one interval
FromRange == /\ s = <<>> /\ kind # "element"
             /\ \E r \in RangesE, v \in IF IsSet THEN {1} ELSE Values(m) \cup {0} :
                  Step("range", <<r[1], r[2], v>>, kind, IF IsEmptyRange(r) \/ (m.absorb /\ v = 0) THEN <<>> ELSE << <<r[1], r[2], v>> >>)
FromPoint == /\ s = <<>>
             /\ \E x \in Atoms, v \in IF IsSet THEN {1} ELSE Values(m) \cup {0} :
                  Step("point", <<x, x, v>>, kind, IF m.absorb /\ v = 0 THEN <<>> ELSE << <<x, x, v>> >>)
Next == Convert \/ Join \/ AbsorbI \/ IntoAbsorber \/ FromRange \/ FromPoint
Spec == Init /\ [][Next]_<<m, kind, s, op>>
One  == op = "none"   \* explore single steps

TypeOK == WFK(kind, s)
ContentKept == [][ \/ op' \in {"range", "point"}
                   \/ Content(s') = Content(s)
                   \/ op' \in {"absorb", "absorber"} /\ \A x \in Atoms : Content(s')[x] = IF Content(s)[x] = 0 THEN None ELSE Content(s)[x] ]_<<m, kind, s, op>>
\* going to another kind and back; joining is idempotent and minimal
RoundTrips == /\ Content(As("element", s)) = Content(s)
              /\ As("join", As("element", s)) = As("join", s)
              /\ As("join", As("split", s)) = As("join", s)
              /\ (kind = "join" => As("join", s) = s)
              /\ MaximallyJoined(As("join", s)) /\ Len(As("join", s)) <= Len(s)
=============================================================================
