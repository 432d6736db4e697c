-------------------------------- MODULE Hints --------------------------------
(***************************************************************************)
(* Hinted and bulk insertion.  A container together with a position p in   *)
(* it (1 .. number of segments + 1, the last one being the end).  Adding   *)
(* or inserting a piece with the hint p yields the container that adding   *)
(* it without a hint yields, and SOME position of that container as the    *)
(* next hint: the choice is left open, because no result may depend on it.      *)
(* TLC explores every hinted step and writes, for every state and every    *)
(* script of pieces, the states passed through; the harness walks the real *)
(* containers along each script from every initial position, feeding every *)
(* returned position into the next step, and through the add and insert    *)
(* iterators.                                                              *)
(***************************************************************************)
EXTENDS MapOps, SetOps, CSV, IOUtils
CONSTANTS Selected,   \* "set-join", "set-sep", "set-split" and names of map types
          Len_,       \* pieces per script
          PieceOps,   \* subset of {"add", "ins"}
          Big, OutFile
VARIABLES m, s, p

SetKind(st) == [style |-> st, total |-> FALSE, absorb |-> FALSE, comb |-> "none"]
IsSet(t) == t.comb = "none"
NameOf(t) == IF IsSet(t) THEN "set-" \o t.style ELSE TypeName(t)
Kinds == { t \in MapTypes \cup { SetKind(st) : st \in Styles } : NameOf(t) \in Selected }
States(t) == IF IsSet(t) THEN AllSets(t.style) ELSE AllMaps(t, StateVals(t, Big))
Positions(x) == 1 .. (Len(x) + 1)

\* values 0 (an identity), a value that melts with the states' and one that does not
PieceVals(t) == IF IsSet(t) THEN {1} ELSE IF t.comb = "plus" THEN {0, 1, -1} ELSE IF t.comb = "max" THEN {0, 1, 2, -1} ELSE {0, 1, 2}
Pieces(t) == { <<r[1], r[2], v>> : r \in NERanges, v \in PieceVals(t) \ {0} } \cup (IF IsSet(t) THEN {} ELSE { <<0, N - 1, 0>>, <<1, 1, 0>> })
             \cup { <<1, 0, 1>> }
Put(t, op, x, g) == IF IsSet(t) THEN SAdd(t.style, x, SegR(g))
                    ELSE IF op = "add" THEN MAdd(t, x, SegR(g), g[3]) ELSE MInsert(t, x, SegR(g), g[3])

Init == m \in Kinds /\ s \in States(m) /\ p \in Positions(s)
\* the transition: result independent of the hint, returned position free
Hinted(op, g) == /\ s' = Put(m, op, s, g)
                 /\ p' \in Positions(s')
                 /\ UNCHANGED m
Spec == Init /\ [][\E op \in PieceOps, g \in Pieces(m) : Hinted(op, g)]_<<m, s, p>>
\* pieces that lie apart from each other and from the content may come in any order
Apart(g, h) == g[2] + 1 < h[1] \/ h[2] + 1 < g[1]
OrderIrrelevant == \A op \in PieceOps, g, h \in Pieces(m) :
  (Apart(g, h) /\ (IsSet(m) => m.style # "sep")) => Put(m, op, Put(m, op, s, g), h) = Put(m, op, Put(m, op, s, h), g)
\* inserting never touches a present key; adding to a set is idempotent
InsertKeeps == \A g \in Pieces(m) : "ins" \in PieceOps =>
  LET q == Put(m, "ins", s, g) IN \A x \in Dom(s) : Content(q)[x] = Content(s)[x]

\* scripts for the harness
Post(op, sc) == LET RECURSIVE go(_, _)
                    go(i, x) == IF i > Len(sc) THEN <<>> ELSE LET y == Put(m, op, x, sc[i]) IN <<y>> \o go(i + 1, y)
                IN go(1, s)
Script == \E op \in PieceOps, sc \in [1 .. Len_ -> Pieces(m)] :
            LET q == TLCEval(Post(op, sc)) IN
            /\ CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s;%6$s;%7$s", <<NameOf(m), op, sc, s, q[1], q[2], q[Len_]>>, OutFile)
            /\ UNCHANGED <<m, s, p>>
SInit == m \in Kinds /\ s \in States(m) /\ p = 1
SSpec == SInit /\ [][Script]_<<m, s, p>>
WF == IF IsSet(m) THEN SetWF(m.style, s) ELSE MapWF(m, s)
InV == IsSet(m) \/ \A i \in DOMAIN s : s[i][3] \in StateVals(m, Big)
=============================================================================
