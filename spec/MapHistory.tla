----------------------------- MODULE MapHistory -----------------------------
(***************************************************************************)
(* A pool of interval maps of one traits/combiner family and of key sets,  *)
(* under arbitrary histories of operations: objects 1..KM are maps (their  *)
(* style varies), objects KM+1..KM+KS are interval sets of keys.           *)
(***************************************************************************)
EXTENDS MapOps, SetOps, TLC

CONSTANTS KM, KS, Total, Absorbs, Combiner
VARIABLES style, segs
hvars == <<style, segs>>
Maps == 1 .. KM
KeyS == (KM + 1) .. (KM + KS)
Objs == Maps \cup KeyS
M(x) == [style |-> style[x], total |-> Total, absorb |-> Absorbs, comb |-> Combiner]
TypeOK == /\ \A x \in Maps : MapWF(M(x), segs[x])
          /\ \A x \in KeyS : SetWF(style[x], segs[x])
Put(x, s) == segs' = [segs EXCEPT ![x] = s] /\ UNCHANGED style
FineM(t) == IF t = "join" THEN 1 ELSE 3

HPair(x, op, r, v) == x \in Maps /\ Put(x, MOpP(op, M(x), segs[x], r, v))
HKey(x, op, r)     == x \in Maps /\ Put(x, MOpK(op, M(x), segs[x], r))
HCont(x, op, y)    == x # y /\ {x, y} \subseteq Maps /\ Put(x, MOpC(op, M(x), segs[x], segs[y]))
HKeys(x, op, y)    == x \in Maps /\ y \in KeyS /\ Put(x, MOpC(op, M(x), segs[x], segs[y]))
HInfix(z, op, x, y) == /\ {x, y, z} \subseteq Maps /\ style[z] = style[x] /\ FineM(style[x]) >= FineM(style[y])
                       /\ Put(z, MOpC(op, M(x), segs[x], segs[y]))
HInfixK(z, op, x, y) == /\ {x, z} \subseteq Maps /\ y \in KeyS /\ style[z] = style[x]
                        /\ Put(z, MOpC(op, M(x), segs[x], segs[y]))
HSetR(x, op, r)    == x \in KeyS /\ Put(x, SOpR(op, style[x], segs[x], r))
HSetC(x, op, y)    == x # y /\ {x, y} \subseteq KeyS /\ Put(x, SOpC(op, style[x], segs[x], segs[y]))
HDomain(x, y)      == x \in KeyS /\ y \in Maps /\ Put(x, SAddC(style[x], <<>>, segs[y]))
\* gaps inside the hull
Gaps(s) == [i \in 1 .. (Len(s) - 1) |-> <<s[i][2] + 1, s[i + 1][1] - 1, 1>>]
HBetween(x, y)     == x \in KeyS /\ y \in Maps /\ Put(x, SAddC(style[x], <<>>, SelectSeq(Gaps(segs[y]), LAMBDA g : g[1] <= g[2])))
HAssign(x, y)      == {x, y} \subseteq Maps /\ Put(x, MCanon(M(x), Content(segs[y]), Borders(segs[y])))
HCopy(x, y)        == style[x] = style[y] /\ ((x \in Maps) = (y \in Maps)) /\ Put(x, segs[y])
HSwap(x, y)        == /\ style[x] = style[y] /\ ((x \in Maps) = (y \in Maps))
                      /\ segs' = [segs EXCEPT ![x] = segs[y], ![y] = segs[x]] /\ UNCHANGED style
HMove(x, y)        == /\ x # y /\ style[x] = style[y] /\ ((x \in Maps) = (y \in Maps))
                      /\ segs' = [segs EXCEPT ![x] = segs[y], ![y] = <<>>] /\ UNCHANGED style
HClear(x)          == Put(x, <<>>)
HErase(x, i, j)    == /\ 1 <= i /\ i <= j /\ j <= Len(segs[x]) + 1 /\ x \in Maps
                      /\ Put(x, SubSeq(segs[x], 1, i - 1) \o SubSeq(segs[x], j, Len(segs[x])))
HJoin(x)           == x \in Maps /\ Put(x, Build(Content(segs[x]), {}))
HAbsorb(x)         == x \in Maps /\ Put(x, SelectSeq(segs[x], LAMBDA g : g[3] # 0))

HInit == /\ style \in [Objs -> MStyles] /\ segs = [x \in Objs |-> <<>>]
HVals == IF Combiner = "plus" THEN {-1, 0, 1} ELSE {0, 1, 2}
HNext ==
  \/ \E x \in Maps, op \in PairOps, r \in RangesE, v \in HVals :
        Applicable(M(x), op) /\ ~(op = "flip" /\ Absorbs /\ v = 0) /\ HPair(x, op, r, v)
  \/ \E x \in Maps, op \in KeyOps, r \in RangesE : HKey(x, op, r)
  \/ \E x, y \in Maps, op \in MapOpsC : Applicable(M(x), op) /\ HCont(x, op, y)
  \/ \E x, y, z \in Maps, op \in MapOpsC : Applicable(M(x), op) /\ HInfix(z, op, x, y)
  \/ \E x \in Maps, y \in KeyS, op \in SetOpsC : HKeys(x, op, y) \/ \E z \in Maps : HInfixK(z, op, x, y)
  \/ \E x \in KeyS, op \in ROps, r \in RangesE : HSetR(x, op, r)
  \/ \E x, y \in KeyS, op \in COps : HSetC(x, op, y)
  \/ \E x \in KeyS, y \in Maps : HDomain(x, y) \/ HBetween(x, y)
  \/ \E x, y \in Objs : HAssign(x, y) \/ HCopy(x, y) \/ HSwap(x, y) \/ HMove(x, y)
  \/ \E x \in Objs : HClear(x) \/ HJoin(x) \/ HAbsorb(x) \/ \E i, j \in 1 .. (N + 1) : HErase(x, i, j)
HSpec == HInit /\ [][HNext]_hvars
\* values stay small enough for exhaustive exploration
Small == \A x \in Maps : \A i \in DOMAIN segs[x] : segs[x][i][3] \in {-1, 0, 1, 2}
=============================================================================
