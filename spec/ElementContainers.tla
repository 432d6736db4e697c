-------------------------- MODULE ElementContainers --------------------------
(***************************************************************************)
(* Element maps (icl::map) and element sets: the state is a partial        *)
(* function from keys to values and every operation is given key by key.   *)
(* TLC checks for every step that an interval container of either style    *)
(* with the same content takes the corresponding step (the interval        *)
(* containers refine the element containers), and writes the step and the  *)
(* answers of all observers to OutFile for replay into the real element    *)
(* containers.                                                             *)
(***************************************************************************)
EXTENDS QueryOps, SetOps, CSV, IOUtils
CONSTANTS Selected,   \* "set" and names of map types (joining ones)
          OpSet,      \* operations, and "ask" for the observers
          Big, OutFile
VARIABLES m, f

SetType == [style |-> "set", total |-> FALSE, absorb |-> TRUE, comb |-> "none"]
IsSet == m.style = "set"
NameOf(t) == IF t.style = "set" THEN "set" ELSE TypeName(t)
States(t) == IF t.style = "set" THEN Contents({1}) ELSE Contents(StateVals(t, Big))
Operands(t) == IF t.style = "set" THEN Contents({1}) ELSE Contents(OperandVals(t, Big))
KeyFns == Contents({1})
\* written as unit segments
Cut(g) == Build(g, 0 .. N)
Init == m \in { t \in MapTypes \cup {SetType} : NameOf(t) \in Selected } /\ f \in States(m)
Emit(op, arg, post) == IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s", <<NameOf(m), op, arg, Cut(f), post>>, OutFile)

\* ------------------------------------------------------- the steps, per key
PairStep(op, k, v) == [x \in Atoms |-> KeyMeaning(op, m, f[x], x = k, v)]
FnStep(op, g) == [x \in Atoms |-> KeyMeaning(PointOp(op), m, f[x], g[x] # None, g[x])]
SetStep(op, D) == [x \in Atoms |-> IF x \in CASE op = "addC" -> DomF(f) \cup D [] op = "subC" -> DomF(f) \ D
                                              [] op = "andC" -> DomF(f) \cap D [] op = "xorC" -> (DomF(f) \ D) \cup (D \ DomF(f))
                                   THEN 1 ELSE None]
\* ------------------------------------------------ refinement, both styles
Representations(g) == { Build(g, {}), Cut(g) }
AsStyle(st) == [m EXCEPT !.style = st]
Refined(Op(_, _), post) == \A st \in MStyles : \A s \in (IF st = "join" THEN { Build(f, {}) } ELSE Representations(f)) :
                             Content(Op(AsStyle(st), s)) = post
Step(op, arg, post, ok) == /\ Assert(ok, <<"not refined by the interval containers", m, op, arg, f, post>>)
                           /\ f' = post /\ UNCHANGED m /\ Emit(op, arg, Cut(post))

PairOp == /\ ~IsSet
          /\ \E op \in PairOps \cap OpSet, k \in Atoms, v \in PairVals(m, Big) :
               /\ Applicable(m, op) /\ ~(op = "flip" /\ m.absorb /\ v = 0)
               /\ LET q == PairStep(op, k, v) IN Step(op, <<k, k, v>>, q, Refined(LAMBDA t, s : MOpP(op, t, s, <<k, k>>, v), q))
KeyOp  == /\ ~IsSet
          /\ \E op \in KeyOps \cap OpSet, k \in Atoms :
               LET q == PairStep(op, k, 0) IN Step(op, <<k, k>>, q, Refined(LAMBDA t, s : MOpK(op, t, s, <<k, k>>), q))
MapOp  == /\ ~IsSet
          /\ \E op \in MapOpsC \cap OpSet, g \in IF MapOpsC \cap OpSet = {} THEN {} ELSE Operands(m) :
               /\ Applicable(m, op)
               /\ LET q == FnStep(op, g) IN Step(op, Cut(g), q, Refined(LAMBDA t, s : MOpC(op, t, s, Build(g, {})), q))
KeysOp == /\ ~IsSet
          /\ \E op \in SetOpsC \cap OpSet, g \in IF SetOpsC \cap OpSet = {} THEN {} ELSE KeyFns :
               LET q == FnStep(op, g) IN Step(op, Cut(g), q, Refined(LAMBDA t, s : MOpC(op, t, s, Build(g, {})), q))
RefinedSet(Op(_, _), post) == \A st \in Styles : Content(Op(st, IF st = "join" THEN Build(f, {}) ELSE Cut(f))) = post
SetROp == /\ IsSet
          /\ \E op \in ROps \cap OpSet, k \in Atoms :
               LET q == SetStep(CASE op = "add" -> "addC" [] op = "sub" -> "subC" [] op = "and" -> "andC" [] op = "flip" -> "xorC", {k}) IN
               Step(op, <<k, k>>, q, RefinedSet(LAMBDA st, s : SOpR(op, st, s, <<k, k>>), q))
SetCOp == /\ IsSet
          /\ \E op \in COps \cap OpSet, g \in KeyFns :
               LET q == SetStep(op, DomF(g)) IN Step(op, Cut(g), q, RefinedSet(LAMBDA st, s : SOpC(op, st, s, Build(g, {})), q))

\* ------------------------------------------------------------- observers
Ask(q, arg, ans, ok) == "ask" \in OpSet /\ Assert(ok, <<"answers differ", m, q, arg, f, ans>>) /\ UNCHANGED <<m, f>> /\ Emit(q, arg, ans)
\* two maps with common keys whose values annihilate each other: whether they intersect is not judged
Doubtful(g) == ~IsSet /\ DomF(f) \cap DomF(g) # {} /\ MapAns(m, Cut(f), Cut(g))[2] = 0
Observers ==
  \/ Ask("un", <<>>, <<Cardinality(DomF(f))>>, Count(Build(f, {})) = Cardinality(DomF(f)))
  \/ \E k \in Atoms : LET a == KeyAns(Cut(f), k) IN Ask("key", <<k, k>>, a, a[1] = KeyAns(Build(f, {}), k)[1] /\ a[3] = KeyAns(Build(f, {}), k)[3])
  \/ /\ ~IsSet
     /\ \E k \in Atoms, v \in PairVals(m, Big) : LET a == PairAns(m, Cut(f), <<k, k>>, v) IN Ask("pair", <<k, k, v>>, a, a = PairAns(m, Build(f, {}), <<k, k>>, v))
  \/ \E g \in States(m) : LET a == IF IsSet THEN SetAns(Cut(f), Cut(g)) ELSE MapAns(m, Cut(f), Cut(g))
                              b == IF IsSet THEN SetAns(Build(f, {}), Build(g, {})) ELSE MapAns(m, Build(f, {}), Build(g, {}))
                          IN Ask("cont", Cut(g), IF Doubtful(g) THEN [a EXCEPT ![2] = -1] ELSE a, a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] = b[5] /\ a[5] = b[5] /\ (a[6] = 1 <=> Protons(Cut(f)) = Protons(Cut(g))))
  \/ /\ ~IsSet
     /\ \E g \in KeyFns : LET a == KeysAns(Cut(f), Cut(g)) IN Ask("keys", Cut(g), a, a = KeysAns(Build(f, {}), Build(g, {})))
  \/ ~IsSet /\ Ask("domain", <<>>, Cut([x \in Atoms |-> IF f[x] = None THEN None ELSE 1]), TRUE)
  \/ ~IsSet /\ Ask("absorb", <<>>, Cut([x \in Atoms |-> IF f[x] = 0 THEN None ELSE f[x]]), TRUE)
Next == PairOp \/ KeyOp \/ MapOp \/ KeysOp \/ SetROp \/ SetCOp \/ Observers
Spec == Init /\ [][Next]_<<m, f>>
WF == m.absorb => \A x \in Atoms : f[x] # 0
InV == f \in States(m)
=============================================================================
