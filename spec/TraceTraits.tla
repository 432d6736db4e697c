---------------------------- MODULE TraceTraits ----------------------------
(***************************************************************************)
(* Validates histories recorded from four real maps (partial/total,        *)
(* absorbing/enriching) run through the same operations: every event is a  *)
(* step of Traits.tla and all four relations hold in every state.          *)
(***************************************************************************)
EXTENDS Traits, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
R(r) == <<r[1], r[2]>>
Logged == \A k \in KindsOf : q'[k] = E.post[k]
TInit == l = 1 /\ c \in Families /\ q = [k \in KindsOf |-> <<>>]
TReset == Is("reset") /\ q' = [k \in KindsOf |-> <<>>] /\ UNCHANGED c
To(op, z) == Claims(op) = Rels /\ q' = z /\ UNCHANGED c
TPair == Is("pair") /\ To(E.op, OnPair(E.op, R(E.r), E.v)) /\ Logged
TKey  == Is("key") /\ To(E.op, OnKey(E.op, R(E.r))) /\ Logged
TMap  == Is("map") /\ To(E.op, OnMap(E.op, E.t)) /\ Logged
TKeys == Is("keys") /\ To(E.op, OnKeys(E.op, E.t)) /\ Logged
TNext == TReset \/ TPair \/ TKey \/ TMap \/ TKeys
TSpec == TInit /\ [][TNext]_<<c, q, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
