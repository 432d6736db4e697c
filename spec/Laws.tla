-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The algebraic laws the documentation states for the containers          *)
(* (doc/semantics.qbk), as equations between terms over three containers   *)
(* a, b, c.  Each law names the strongest equality it is documented for:   *)
(*   "=="  the same segments      "=e="  the same elements and values      *)
(*   "=d=" the same values apart from identities                           *)
(* TLC evaluates both sides on every triple of contents (invariant Hold)   *)
(* and writes them for the replay on the containers of the library.        *)
(***************************************************************************)
EXTENDS MapOps, SetOps, CSV, IOUtils
CONSTANTS Selected,   \* "set-join" ... and names of map types; the last part of a name may be "element"
          Nonneg,     \* numbers are unsigned
          Big, OutFile
VARIABLES m, st

SetKind(s) == [style |-> s, total |-> FALSE, absorb |-> FALSE, comb |-> "none"]
ElemKinds == { [t EXCEPT !.style = "element"] : t \in MapTypes }
IsSet(t) == t.comb = "none"
NameOf(t) == IF IsSet(t) THEN "set-" \o t.style ELSE TypeName(t)
Kinds == { t \in MapTypes \cup ElemKinds \cup { SetKind(s) : s \in Styles \cup {"element"} } : NameOf(t) \in Selected }
Elem == m.style = "element"
Unit(q) == Build(Content(q), 0 .. N)
Fit(q) == IF Elem THEN Unit(q) ELSE q
MM == IF Elem THEN [m EXCEPT !.style = "split"] ELSE m
SS == IF Elem THEN "split" ELSE m.style
Values(t) == IF ~Nonneg THEN StateVals(t, Big) ELSE {1, 2} \cup (IF t.absorb THEN {} ELSE {0})
States(t) == IF t.style = "element" THEN { Build(f, 0 .. N) : f \in Contents(IF IsSet(t) THEN {1} ELSE Values(t)) }
             ELSE IF IsSet(t) THEN AllSets(t.style) ELSE AllMaps(t, Values(t))

\* ------------------------------------------------------------------- terms
\* <<"a">>, <<"b">>, <<"c">>, <<"0">> (the empty container), <<op, term, term>>
A == <<"a">>   B == <<"b">>   C == <<"c">>   Zero == <<"0">>
Sum(x, y) == <<"+", x, y>>   Cut(x, y) == <<"-", x, y>>   Meet(x, y) == <<"&", x, y>>
SetCode == [o \in {"+", "-", "&", "^"} |-> CASE o = "+" -> "addC" [] o = "-" -> "subC" [] o = "&" -> "andC" [] o = "^" -> "xorC"]
MapCode == [SetCode EXCEPT !["^"] = "flipC"]
RECURSIVE Eval(_)
Eval(e) == CASE e[1] = "a" -> st[1] [] e[1] = "b" -> st[2] [] e[1] = "c" -> st[3] [] e[1] = "0" -> <<>>
             [] OTHER -> Fit(IF IsSet(m) THEN SOpC(SetCode[e[1]], SS, Eval(e[2]), Eval(e[3])) ELSE MOpC(MapCode[e[1]], MM, Eval(e[2]), Eval(e[3])))

Distinct(q) == [x \in Atoms |-> IF Content(q)[x] = 0 THEN None ELSE Content(q)[x]]
Same(eq, x, y) == CASE eq = "==" -> x = y [] eq = "=e=" -> Content(x) = Content(y) [] eq = "=d=" -> Distinct(x) = Distinct(y)

\* -------------------------------------------------------------------- laws
\* <<name, left side, right side, equality, number of variables>>
Law(n, k, l, r, eq) == <<n, l, r, eq, k>>
Number == m.comb = "plus"
Splits == m.style = "split"
Base == { Law("NeutralityAdd", 1, Sum(A, Zero), A, "=="), Law("CommutativityAdd", 2, Sum(A, B), Sum(B, A), "=="),
          Law("CommutativityAnd", 2, Meet(A, B), Meet(B, A), "=="),
          Law("RightNeutralitySub", 1, Cut(A, Zero), A, "=="),
          Law("InversionSub", 1, Cut(A, A), Zero, IF IsSet(m) \/ m.absorb THEN "==" ELSE "=d=") }
AssocAdd == { Law("AssociativityAdd", 3, Sum(A, Sum(B, C)), Sum(Sum(A, B), C), IF Number /\ ~Nonneg /\ Splits THEN "=e=" ELSE "==") }
\* signed numbers: a sum that is the identity disappears from a partial absorber
AssocAnd == IF Number /\ ~Nonneg /\ m.absorb /\ ~m.total THEN {}
            ELSE { Law("AssociativityAnd", 3, Meet(A, Meet(B, C)), Meet(Meet(A, B), C), IF Number /\ ~Nonneg /\ m.absorb THEN "=e=" ELSE "==") }
SetLaws ==
  LET dis == IF Splits THEN "=e=" ELSE "=="
      enr == ~IsSet(m) /\ ~m.absorb
      dm  == IF m.style \in {"split", "sep"} THEN "=e=" ELSE "=="
  IN { Law("DistributivityAddAnd", 3, Sum(A, Meet(B, C)), Meet(Sum(A, B), Sum(A, C)), dis),
       Law("DistributivityAndAdd", 3, Meet(A, Sum(B, C)), Sum(Meet(A, B), Meet(A, C)), IF enr THEN "==" ELSE dis),
       Law("RightDistributivityAddSub", 3, Cut(Sum(A, B), C), Sum(Cut(A, C), Cut(B, C)), dis),
       Law("RightDistributivityAndSub", 3, Cut(Meet(A, B), C), Meet(Cut(A, C), Cut(B, C)), "=="),
       Law("DeMorganAddAnd", 3, Cut(A, Sum(B, C)), Meet(Cut(A, B), Cut(A, C)), "=="),
       Law("DeMorganAndAdd", 3, Cut(A, Meet(B, C)), Sum(Cut(A, B), Cut(A, C)), dm),
       Law("SymmetricDifference", 2, Cut(Sum(A, B), Meet(A, B)), Sum(Cut(A, B), Cut(B, A)), "==") }
GroupLaws == { Law("SymmetricDifference", 2, Cut(Sum(A, B), Meet(A, B)), Sum(Cut(A, B), Cut(B, A)), "==") }
             \cup (IF m.total THEN { Law("InverseElement", 1, Sum(Cut(Zero, A), A), Zero, IF m.absorb THEN "==" ELSE "=d=") } ELSE {})
Laws == Base \cup AssocAdd \cup AssocAnd
        \cup (IF IsSet(m) \/ SetSem(m.comb) THEN SetLaws ELSE {})
        \cup (IF Number /\ ~Nonneg THEN GroupLaws ELSE {})

\* ------------------------------------------------------------------ checks
Init == m \in Kinds /\ \E a \in States(m), b \in States(m), c \in States(m) : st = <<a, b, c>>
\* a law with fewer variables is looked at once
Relevant(l) == (l[5] < 3 => st[3] = <<>>) /\ (l[5] < 2 => st[2] = <<>>)
Hold == \A l \in { l \in Laws : Relevant(l) } : Same(l[4], Eval(l[2]), Eval(l[3])) \/ (PrintT(<<NameOf(m), l[1], l[4], st, Eval(l[2]), Eval(l[3])>>) /\ FALSE)
Emit(l) == CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s;%6$s;%7$s;%8$s;%9$s;%10$s", <<NameOf(m), l[1], l[4], l[2], l[3], st[1], st[2], st[3], Eval(l[2]), Eval(l[3])>>, OutFile)
Next == /\ \E l \in Laws : Relevant(l) /\ Emit(l)
        /\ UNCHANGED <<m, st>>
Spec == Init /\ [][Next]_<<m, st>>
=============================================================================
