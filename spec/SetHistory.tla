----------------------------- MODULE SetHistory -----------------------------
(***************************************************************************)
(* A pool of interval sets of all styles under arbitrary histories of      *)
(* operations: the state machine a user program drives.  Exhaustively      *)
(* checked with small constants (SetHistory.cfg in checks.py) and reused   *)
(* by TraceSets to validate recorded executions of the real containers.    *)
(***************************************************************************)
EXTENDS SetOps, TLC

CONSTANTS K                         \* objects 1..K
VARIABLES style, segs               \* [1..K -> Styles], [1..K -> segments]
hvars == <<style, segs>>

Objs == 1 .. K
TypeOK == \A x \in Objs : SetWF(style[x], segs[x])

Fine(t) == CASE t = "join" -> 1 [] t = "sep" -> 2 [] t = "split" -> 3
ToStyle(t, s) == SAddC(t, <<>>, s)            \* conversion: re-add every segment

Put(x, s) == segs' = [segs EXCEPT ![x] = s] /\ UNCHANGED style

HRange(x, op, r) == Put(x, SOpR(op, style[x], segs[x], r))
HCont(x, op, y)  == x # y /\ Put(x, SOpC(op, style[x], segs[x], segs[y]))
\* z := x op y; the finer operand's style is the style of the result
HInfix(z, op, x, y) == /\ Fine(style[x]) >= Fine(style[y]) /\ style[z] = style[x]
                       /\ Put(z, SOpC(op, style[x], segs[x], segs[y]))
HAssign(x, y) == Put(x, ToStyle(style[x], segs[y]))
HCopy(x, y)   == style[x] = style[y] /\ Put(x, segs[y])
HSwap(x, y)   == /\ style[x] = style[y]
                 /\ segs' = [segs EXCEPT ![x] = segs[y], ![y] = segs[x]] /\ UNCHANGED style
\* moving out leaves the source in an unspecified valid state; the driver clears it
HMove(x, y)   == /\ x # y /\ style[x] = style[y]
                 /\ segs' = [segs EXCEPT ![x] = segs[y], ![y] = <<>>] /\ UNCHANGED style
HClear(x)     == Put(x, <<>>)
HErase(x, i, j) == /\ 1 <= i /\ i <= j /\ j <= Len(segs[x]) + 1
                   /\ Put(x, SEraseAt(segs[x], i, j))
HJoin(x)      == Put(x, Build(Ones(Dom(segs[x])), {}))      \* icl::join

HInit == style \in [Objs -> Styles] /\ segs = [x \in Objs |-> <<>>]
HNext ==
  \/ \E x \in Objs, op \in ROps, r \in RangesE : HRange(x, op, r)
  \/ \E x, y \in Objs, op \in COps : HCont(x, op, y)
  \/ \E x, y, z \in Objs, op \in COps : HInfix(z, op, x, y)
  \/ \E x, y \in Objs : HAssign(x, y) \/ HCopy(x, y) \/ HSwap(x, y) \/ HMove(x, y)
  \/ \E x \in Objs : HClear(x) \/ HJoin(x)
                     \/ \E i, j \in 1 .. (N + 1) : HErase(x, i, j)
HSpec == HInit /\ [][HNext]_hvars

\* every operation means what it says about elements
Meaning ==
  \A x \in Objs :
    /\ \A op \in ROps, r \in RangesE : Dom(SOpR(op, style[x], segs[x], r)) = AbsR(op, Dom(segs[x]), r)
    /\ \A op \in COps, y \in Objs : Dom(SOpC(op, style[x], segs[x], segs[y])) = AbsC(op, Dom(segs[x]), Dom(segs[y]))
=============================================================================
