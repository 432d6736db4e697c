------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* Segment-wise removal and updates filtered by a predicate.  The state is *)
(* a container of some kind (see Conversions); a predicate is the set of   *)
(* positions of the segments (elements) that satisfy it, so every          *)
(* predicate is explored.                                                  *)
(*   eraseIt i        erase(iterator)          eraseRange i, j  erase(first, past)   *)
(*   eraseIf P        erase_if(pred, x)                                    *)
(*   addIf src, P     add_if(pred, x, src)     assignIf src, P  assign_if(pred, x, src) *)
(***************************************************************************)
EXTENDS SetOps, MapOps, CSV, IOUtils
CONSTANTS Selected,   \* "set" and names of map types (joining ones)
          Ops,        \* subset of {"eraseIt", "eraseRange", "eraseIf", "addIf", "assignIf"}
          Big, OutFile
VARIABLES m, kind, s, last    \* last: the operation, its source and its predicate

SetType == [style |-> "set", total |-> FALSE, absorb |-> FALSE, comb |-> "none"]
IsSet == m.style = "set"
NameOf(t) == IF t.style = "set" THEN "set" ELSE TypeName(t)
Kinds(t) == IF t.style = "set" THEN {"join", "sep", "split", "element"} ELSE {"join", "split", "element"}
\* element sets have no erase(iterator) of their own, interval sets no predicates
Has(o) == (IsSet /\ o \in {"eraseIf", "addIf", "assignIf"}) => kind = "element"
OfKind(k, V) == CASE k = "join" -> { Build(f, {}) : f \in Contents(V) }
                  [] k \in {"sep", "split"} -> AllCut(V)
                  [] k = "element" -> { Build(f, 0 .. N) : f \in Contents(V) }
States(t, k) == OfKind(k, IF t.style = "set" THEN {1} ELSE StateVals(t, Big))
Sources(t, k) == OfKind(k, IF t.style = "set" THEN {1} ELSE OperandVals(t, Big))
WFK(k, q) == /\ Ordered(q) /\ NonEmpty(q)
             /\ (k = "join" => MaximallyJoined(q)) /\ (k = "element" => \A i \in DOMAIN q : q[i][1] = q[i][2])
\* the segments of q at the positions P, in order
Pick(q, P) == LET ix == SetToSortSeq(P, <) IN [i \in 1 .. Len(ix) |-> q[ix[i]]]
AsElements(q) == Build(Content(q), 0 .. N)
AddSeg(x, g) == IF IsSet THEN SAdd(IF kind = "element" THEN "split" ELSE kind, x, SegR(g))
                ELSE LET q == MAdd([m EXCEPT !.style = IF kind = "join" THEN "join" ELSE "split"], x, SegR(g), g[3]) IN IF kind = "element" THEN AsElements(q) ELSE q
AddAll(x, q) == FoldLeft(AddSeg, x, q)

Init == /\ m \in { t \in MapTypes \cup {SetType} : NameOf(t) \in Selected }
        /\ kind \in Kinds(m) /\ s \in States(m, kind) /\ last = <<"none", <<>>, {}>>
Emit(o, src, P, post) == IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s;%6$s;%7$s", <<NameOf(m), o, src, SetToSortSeq(P, <), kind, s, post>>, OutFile)
Step(o, src, P, post) == o \in Ops /\ Has(o) /\ s' = post /\ last' = <<o, src, P>> /\ UNCHANGED <<m, kind>> /\ Emit(o, src, P, post)

EraseIt    == "eraseIt" \in Ops /\ \E i \in DOMAIN s : Step("eraseIt", <<>>, {i}, Pick(s, DOMAIN s \ {i}))
EraseRange == "eraseRange" \in Ops /\ \E i \in 1 .. (Len(s) + 1), j \in 1 .. (Len(s) + 1) : i <= j /\ Step("eraseRange", <<>>, {i, j}, Pick(s, DOMAIN s \ (i .. (j - 1))))
EraseIf    == "eraseIf" \in Ops /\ \E P \in Predicates(s) : Step("eraseIf", <<>>, P, Pick(s, DOMAIN s \ P))
AddIf      == "addIf" \in Ops /\ \E q \in Sources(m, kind) : \E P \in Predicates(q) : Step("addIf", q, P, AddAll(s, Pick(q, P)))
AssignIf   == "assignIf" \in Ops /\ \E q \in Sources(m, kind) : \E P \in Predicates(q) : Step("assignIf", q, P, AddAll(<<>>, Pick(q, P)))
Next == EraseIt \/ EraseRange \/ EraseIf \/ AddIf \/ AssignIf
vars == <<m, kind, s, last>>
Spec == Init /\ [][Next]_vars
One == last[1] = "none"

WF == WFK(kind, s) /\ (~IsSet /\ m.absorb => NoIdentity(s))
\* erasures: what remains is untouched, what goes are whole segments
WholeSegments == [][last'[1] \in {"eraseIt", "eraseRange", "eraseIf"} => \A i \in DOMAIN s' : \E j \in DOMAIN s : s'[i] = s[j]]_vars
Exact == [][ /\ last'[1] = "eraseIf" => \A j \in DOMAIN s : (j \in last'[3]) <=> ~\E i \in DOMAIN s' : s'[i] = s[j]
             /\ last'[1] = "assignIf" => \A x \in Atoms : Content(s')[x] = Content(Pick(last'[2], last'[3]))[x]
             /\ last'[1] = "addIf" => \A x \in Atoms : ~(x \in Dom(Pick(last'[2], last'[3]))) => Content(s')[x] = Content(s)[x] ]_vars
\* filtering by P and by its complement partition the container
Partition == (SampleFile = "" \/ last[1] = "none") => \A P \in Predicates(s) : AddAll(AddAll(<<>>, Pick(s, P)), Pick(s, DOMAIN s \ P)) = s
=============================================================================
