------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Containers as values: a store of three variables x, y, z (1, 2, 3) of   *)
(* one container type, and the statements a program can apply to them.     *)
(* Every statement changes its target only; a variable that was moved from *)
(* may hold anything (Unknown) until it is assigned.  TLC checks frame     *)
(* conditions over single statements (Next) and writes, for every pair of  *)
(* contents, every script of a value statement followed by a change of one *)
(* variable (Script) with the whole store after each statement.            *)
(***************************************************************************)
EXTENDS MapOps, SetOps, CSV, IOUtils
CONSTANTS Selected,   \* "set-join" ... and names of map types; the last part of a name may be "element"
          Big, OutFile
VARIABLES m, st

Vars == 1 .. 3
SetKind(s) == [style |-> s, total |-> FALSE, absorb |-> FALSE, comb |-> "none"]
ElemKinds == { [t EXCEPT !.style = "element"] : t \in MapTypes }
IsSet(t) == t.comb = "none"
NameOf(t) == IF IsSet(t) THEN "set-" \o t.style ELSE TypeName(t)
Kinds == { t \in MapTypes \cup ElemKinds \cup { SetKind(s) : s \in Styles \cup {"element"} } : NameOf(t) \in Selected }
Elem == m.style = "element"
\* element containers behave like splitting ones whose segments are units
Unit(q) == Build(Content(q), 0 .. N)
Fit(q) == IF Elem THEN Unit(q) ELSE q
MM == IF Elem THEN [m EXCEPT !.style = "split"] ELSE m
SS == IF Elem THEN "split" ELSE m.style
States(t) == IF t.style = "element" THEN { Build(f, 0 .. N) : f \in Contents(IF IsSet(t) THEN {1} ELSE StateVals(t, Big)) }
             ELSE IF IsSet(t) THEN AllSets(t.style) ELSE AllMaps(t, StateVals(t, Big))
Unknown == << <<-9, -9, -9>> >>
Known(v) == st[v] # Unknown

Two == IF IsSet(m) THEN COps ELSE { op \in {"addC", "subC", "andC", "flipC"} : Applicable(m, op) }
One == IF IsSet(m) THEN ROps ELSE { op \in {"add", "sub", "and", "flip", "eraK", "andK"} : Applicable(m, op) }
C2(op, a, b) == Fit(IF IsSet(m) THEN SOpC(op, SS, a, b) ELSE MOpC(op, MM, a, b))
\* a piece is a range with a value
C1(op, a, g) == Fit(IF IsSet(m) THEN SOpR(op, SS, a, SegR(g))
                    ELSE IF op \in KeyOps THEN MOpK(op, MM, a, SegR(g)) ELSE MOpP(op, MM, a, SegR(g), g[3]))
Pieces == { <<r[1], r[2], v>> : r \in { r \in RangesE : Elem => r[1] = r[2] }, v \in IF IsSet(m) THEN {1} ELSE PairVals(m, Big) }
Sound(op, g) == ~(op = "flip" /\ m.absorb /\ g[3] = 0)     \* not judged
Commutes == m.comb \notin {"cat", "keep"}

\* ------------------------------------------------------- value statements
\* <<name, arguments>> and the store afterwards
With(v, q) == [st EXCEPT ![v] = q]
Forms == {"LL", "RL", "LR", "RR"}                           \* which operands are temporaries (moved)
Gone(f) == [v \in Vars |-> IF (v = 1 /\ f[1]) \/ (v = 2 /\ f[2]) THEN Unknown ELSE st[v]]
Moved(form) == CASE form = "LL" -> <<FALSE, FALSE>> [] form = "RL" -> <<TRUE, FALSE>> [] form = "LR" -> <<FALSE, TRUE>> [] form = "RR" -> <<TRUE, TRUE>>
Bin(op, form)   == [Gone(Moved(form)) EXCEPT ![3] = C2(op, st[1], st[2])]
Chain(o1, o2, i) == LET t == C2(o1, st[1], st[2]) IN
                    With(3, CASE i = 1 -> C2(o2, t, st[1]) [] i = 2 -> C2(o2, st[1], t) [] i = 3 -> C2(o2, t, C2(o1, st[2], st[1])))
Rng(op, g, form) == [Gone(<<form = "R", FALSE>>) EXCEPT ![3] = C1(op, st[1], g)]
\* both operands named, the right one of the joining type (and moved or not)
Joined(q) == Build(Content(q), {})
Mixed(op, form) == [Gone(<<Moved(form)[1], FALSE>>) EXCEPT ![3] = C2(op, st[1], Joined(st[2]))]

ValueStatements ==
  { <<"copy", <<>>, With(3, st[1])>>, <<"move", <<>>, [st EXCEPT ![3] = st[1], ![1] = Unknown]>>,
    <<"swap", <<>>, [st EXCEPT ![1] = st[2], ![2] = st[1]]>>, <<"self", <<>>, st>> }
BinStatements == { <<"bin-" \o op, form, Bin(op, form)>> : op \in Two, form \in Forms }
                 \cup { <<"into-" \o op, "LL", With(1, C2(op, st[1], st[2]))>> : op \in Two }
                 \cup (IF m.style \in {"split", "sep"} THEN { <<"mix-" \o op, form, Mixed(op, form)>> : op \in Two, form \in Forms } ELSE {})
ChainStatements == { <<"chain-" \o o1, <<o2, i>>, Chain(o1, o2, i)>> : o1 \in Two, o2 \in Two, i \in 1 .. 3 }
SelfStatements == { <<"own-" \o op, <<>>, With(1, C2(op, st[1], st[1]))>> : op \in Two }
\* pieces that are parts of the container itself
AliasStatements == { <<"alias-" \o op, <<i>>, With(1, C1(op, st[1], st[1][i]))>> : op \in One, i \in DOMAIN st[1] }
PieceStatements == UNION { { <<"rng-" \o op, <<g, form>>, Rng(op, g, form)>> : form \in {"L", "R"}, g \in { g \in Pieces : Sound(op, g) } } : op \in One }

\* changes of one variable
Full == <<0, N - 1, 1>>
Fill(q) == IF Elem THEN Fit(FoldLeft(LAMBDA a, x : C1("add", a, <<x, x, 1>>), q, [i \in 1 .. N |-> i - 1])) ELSE C1("add", q, Full)
Changes == UNION { (IF Known(v) THEN { <<"fill", <<v>>, With(v, Fill(st[v]))>> } ELSE {})
                   \cup { <<"clear", <<v>>, With(v, <<>>)>> }
                   \cup { <<"assign", <<v, w>>, With(v, st[w])>> : w \in { w \in Vars \ {v} : Known(w) } } : v \in Vars }

\* ------------------------------------------------ single statements (design)
Init == m \in Kinds /\ st \in [Vars -> States(m)]
Readable == Known(1) /\ Known(2)
Do(q) == st' = q[3] /\ UNCHANGED m
Next == \/ \E c \in Changes : Do(c)
        \/ Readable /\ \E c \in ValueStatements \cup BinStatements \cup ChainStatements \cup SelfStatements \cup AliasStatements : Do(c)
Spec == Init /\ [][Next]_<<m, st>>
Bounded == \A v \in Vars : st[v] = Unknown \/ st[v] \in States(m)
WF == \A v \in Vars : st[v] = Unknown \/ (IF IsSet(m) THEN SetWF(SS, st[v]) ELSE MapWF(MM, st[v]))
\* only the target, and variables whose value was handed over, may change
Frame(c) == LET t == IF c[1] \in {"fill", "clear", "assign"} THEN {c[2][1]}
                     ELSE IF c[1] = "swap" THEN {1, 2} ELSE IF c[1] = "self" THEN {}
                     ELSE IF c[3][3] # st[3] THEN {3} ELSE {1}
            IN \A v \in Vars \ t : c[3][v] \in {st[v], Unknown}
Frames == Readable => \A c \in Changes \cup ValueStatements \cup BinStatements \cup ChainStatements : Frame(c)
\* temporaries or named objects: the result is the same
FormIrrelevant == Readable => \A op \in Two, f, g \in Forms : Bin(op, f)[3] = Bin(op, g)[3]

\* ------------------------------------------------------ scripts (binding)
Noise == Fit(IF IsSet(m) THEN SAdd(SS, <<>>, <<0, N - 1>>) ELSE MAdd(MM, <<>>, <<0, N - 1>>, 1))
SInit == /\ m \in Kinds
         /\ \E a \in States(m), b \in States(m) : st = <<a, b, Noise>>
Emit(a, b, post) == CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s;%6$s;%7$s;%8$s;%9$s;%10$s", <<NameOf(m), a[1], a[2], b[1], b[2], st[1], st[2], st[3], a[3], post>>, OutFile)
Nothing == <<"none", <<>>, <<>> >>
After(a) == LET old == st IN   \* the changes offered after statement a
  UNION { (IF a[3][v] # Unknown THEN { <<"fill", <<v>>, [a[3] EXCEPT ![v] = Fill(@)]>> } ELSE {})
          \cup { <<"clear", <<v>>, [a[3] EXCEPT ![v] = <<>>]>> }
          \cup { <<"assign", <<v, w>>, [a[3] EXCEPT ![v] = a[3][w]]>> : w \in { w \in Vars \ {v} : a[3][w] # Unknown } } : v \in Vars }
Script == /\ \/ \E a \in ValueStatements : \E b \in After(a) : Emit(a, b, b[3])
             \/ \E a \in BinStatements : \E b \in { b \in After(a) : b[1] = "fill" \/ (b[1] = "assign" /\ a[3][b[2][1]] = Unknown) } : Emit(a, b, b[3])
             \/ \E a \in ChainStatements : Emit(a, Nothing, a[3])
             \/ /\ st[2] = <<>>
                /\ \E a \in SelfStatements \cup AliasStatements \cup PieceStatements : Emit(a, Nothing, a[3])
          /\ UNCHANGED <<m, st>>
SSpec == SInit /\ [][Script]_<<m, st>>
=============================================================================
