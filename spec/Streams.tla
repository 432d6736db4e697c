------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* Writing containers and intervals to a stream.  The state is a container *)
(* of some kind (see Conversions) or an interval; a transition writes it.  *)
(* The text is a sequence of tokens: marks, and the numbers of atoms.  An  *)
(* interval may be written with any of the bounds that describe it (the    *)
(* text of an interval depends on its representation), so the reader       *)
(* normalises; what is specified is that reading the text gives back       *)
(* exactly the segments, whatever bounds were chosen.                      *)
(***************************************************************************)
EXTENDS SetOps, MapOps, CSV, IOUtils
CONSTANTS Selected,   \* "set", "interval" and names of map types (joining ones)
          Big, OutFile
VARIABLES m, kind, s

SetType == [style |-> "set", total |-> FALSE, absorb |-> FALSE, comb |-> "none"]
IntervalType == [SetType EXCEPT !.style = "interval"]
IsMap(t) == t.style \notin {"set", "interval"}
NameOf(t) == IF IsMap(t) THEN TypeName(t) ELSE t.style
Kinds(t) == IF t.style = "set" THEN {"join", "sep", "split", "element"} ELSE IF t.style = "interval" THEN {"interval"} ELSE {"join", "split", "element"}
Values(t) == IF ~IsMap(t) THEN {1} ELSE IF t.absorb THEN StateVals(t, Big) \ {0} ELSE StateVals(t, Big)
StatesOf(t, k) == CASE k = "join" -> { Build(f, {}) : f \in Contents(Values(t)) }
                    [] k \in {"sep", "split"} -> AllCut(Values(t))
                    [] k = "element" -> { Build(f, 0 .. N) : f \in Contents(Values(t)) }
                    [] k = "interval" -> { << <<r[1], r[2], 1>> >> : r \in NERanges } \cup { <<>> }

\* marks
Open == -101   Close == -102   PairOpen == -103   Arrow == -104   PairClose == -105   Comma == -107   Blank == -109
\* brackets: bit 1 set: the left bound belongs to the interval; bit 0: the right one
LeftMark(b) == IF b >= 2 THEN -111 ELSE -112
RightMark(b) == IF b % 2 = 1 THEN -121 ELSE -122
IntervalText(g, b) == << LeftMark(b), IF b >= 2 THEN g[1] ELSE g[1] - 1, Comma, IF b % 2 = 1 THEN g[2] ELSE g[2] + 1, RightMark(b) >>
SegmentText(k, map, g, b) ==
  LET key == IF k = "element" THEN <<g[1]>> ELSE IntervalText(g, b) IN
  IF map THEN <<PairOpen>> \o key \o <<Arrow, g[3], PairClose>> ELSE IF k = "element" THEN key \o <<Blank>> ELSE key
Flatten(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
\* b: the bounds of every segment
Text(k, map, q, b) ==
  IF k = "interval" THEN (IF q = <<>> THEN <<LeftMark(b[1]), RightMark(b[1])>> ELSE IntervalText(q[1], b[1]))
  ELSE <<Open>> \o Flatten([i \in DOMAIN q |-> SegmentText(k, map, q[i], b[i])]) \o <<Close>>

\* the reader: one segment from position i on, and where it ends
ReadKey(k, t, i) == IF k = "element" THEN << t[i], t[i], i + 1 >>
                    ELSE << t[i + 1] + (IF t[i] = -111 THEN 0 ELSE 1), t[i + 3] - (IF t[i + 4] = -121 THEN 0 ELSE 1), i + 5 >>
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(k, map, t, i) ==
  IF t[i] = Close THEN <<>>
  ELSE LET key == ReadKey(k, t, IF map THEN i + 1 ELSE i) IN
       IF map THEN << <<key[1], key[2], t[key[3] + 1]>> >> \o ReadFrom(k, map, t, key[3] + 3)
       ELSE << <<key[1], key[2], 1>> >> \o ReadFrom(k, map, t, IF k = "element" THEN key[3] + 1 ELSE key[3])
Read(k, map, t) == IF k # "interval" THEN ReadFrom(k, map, t, 2)
                   ELSE IF Len(t) = 2 THEN <<>> ELSE LET key == ReadKey(k, t, 1) IN << <<key[1], key[2], 1>> >>

Init == /\ m \in { t \in MapTypes \cup {SetType, IntervalType} : NameOf(t) \in Selected }
        /\ kind \in Kinds(m) /\ s \in StatesOf(m, kind)
Closed == [i \in 1 .. (Len(s) + 1) |-> 3]
Write == /\ IF OutFile = "" THEN TRUE ELSE CSVWrite("%1$s;%2$s;%3$s;%4$s;%5$s", <<NameOf(m), kind, <<>>, s, Text(kind, IsMap(m), s, Closed)>>, OutFile)
         /\ UNCHANGED <<m, kind, s>>
Spec == Init /\ [][Write]_<<m, kind, s>>

\* whatever bounds the segments are written with, reading gives the state back
Faithful == LET n == Len(s) + 1
                bs == IF n <= 4 THEN [1 .. n -> 0 .. 3] ELSE { [i \in 1 .. n |-> (i * c + d) % 4] : c \in 0 .. 3, d \in 0 .. 3 }
            IN \A b \in bs : Read(kind, IsMap(m), Text(kind, IsMap(m), s, b)) = s
=============================================================================
