----------------------------- MODULE TraceSets -----------------------------
(***************************************************************************)
(* Validates histories recorded from the real interval sets: every event   *)
(* names the call, its arguments and the projected state afterwards, and   *)
(* must be a step of SetHistory.                                           *)
(***************************************************************************)
EXTENDS SetHistory, QueryOps, Json
CONSTANTS TraceFile,
          Adopt,     \* TRUE: only the answers are judged, the states are taken as recorded
          Judged     \* the questions whose answers are judged
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
tvars == <<style, segs, l>>

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
R(r) == <<r[1], r[2]>>
Logged == segs'[E.x] = E.post

TInit == l = 1 /\ style = [x \in Objs |-> "join"] /\ segs = [x \in Objs |-> <<>>]
TReset == Is("reset") /\ style' = E.styles /\ segs' = [x \in Objs |-> <<>>]
TRange == Is("range") /\ HRange(E.x, E.op, R(E.r)) /\ Logged
TCont  == Is("cont") /\ HCont(E.x, E.op, E.y) /\ Logged
TInfix == Is("infix") /\ HInfix(E.x, E.op, E.y, E.z) /\ Logged
TAssign == Is("assign") /\ HAssign(E.x, E.y) /\ Logged
TCopy  == Is("copy") /\ HCopy(E.x, E.y) /\ Logged
TSwap  == Is("swap") /\ HSwap(E.x, E.y) /\ Logged /\ segs'[E.y] = E.post2
TMove  == Is("move") /\ HMove(E.x, E.y) /\ Logged
TClear == Is("clear") /\ HClear(E.x) /\ Logged
TErase == Is("erase") /\ HErase(E.x, E.i, E.j) /\ Logged
TJoin  == Is("join") /\ HJoin(E.x) /\ Logged
\* questions leave everything as it is; 99: not asked
SaysAt(I, want) == Len(E.ans) = Len(want) /\ \A i \in I : E.ans[i] \in {99, want[i]}
Says(want) == SaysAt(DOMAIN want, want)
CountIn(s) == CASE E.kind = "d" -> Count(s) [] E.kind = "c" -> (IF HasOpenGap(s) THEN -1 ELSE Count(s)) [] E.kind = "h" -> (IF s = <<>> THEN 0 ELSE -1)
Sizes(s) == LET c == CountIn(s) IN <<c, c, c, Len(s), Len(s), B(s = <<>>), B(s = <<>>), HullLo(s), HullHi(s), HullLo(s), HullHi(s),
                                     IF E.kind = "c" THEN GridLength(s) ELSE Count(s), IF E.kind = "c" THEN GapLength(s) ELSE GapAtoms(s)>>
TAsk == /\ Is("ask") /\ UNCHANGED <<style, segs>> /\ segs[E.x] = E.post
        /\ LET s == segs[E.x] IN
           CASE E.q # "cont" /\ E.q \notin Judged -> TRUE
             [] E.q = "un" -> Says(Sizes(s))
             [] E.q = "rng" -> Says(RangeAns(s, R(E.a)))
             [] E.q = "key" -> Says(KeyAns(s, E.a[1]))
             [] E.q = "elem" -> E.ans = Elements(s)
             [] E.q = "cont" -> LET w == SetAns(s, segs[E.a[1]]) IN ("cont" \in Judged => SaysAt(1 .. 2, w)) /\ ("relate" \in Judged => SaysAt(3 .. 6, w))
\* the state as recorded
TAdopt == /\ Adopt /\ l <= Len(Trace) /\ E.e \notin {"reset", "ask"} /\ l' = l + 1 /\ UNCHANGED style
          /\ segs' = CASE E.e = "swap" -> [segs EXCEPT ![E.x] = E.post, ![E.y] = E.post2]
                       [] E.e = "move" -> [segs EXCEPT ![E.x] = E.post, ![E.y] = <<>>]
                       [] OTHER -> [segs EXCEPT ![E.x] = E.post]
Steps == TRange \/ TCont \/ TInfix \/ TAssign \/ TCopy \/ TSwap \/ TMove \/ TClear \/ TErase \/ TJoin
TNext == TReset \/ TAsk \/ IF Adopt THEN TAdopt ELSE Steps
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
