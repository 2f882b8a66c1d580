------------------------------- MODULE FrameMC -------------------------------
(* All programs of a few painting steps, in any area in and around of a buffer. *)
EXTENDS Frame
CONSTANTS BW, BH, R, STEPS, BUG
VARIABLES given, cur, touched, n, outer
vars == <<given, cur, touched, n, outer>>
B == <<0, 0, BW, BH>>
Rects == {<<x, y, w, h>> : x \in -R .. BW + R, y \in -R .. BH + R, w \in 0 .. BW + R, h \in 0 .. BH + R}
Init == /\ given \in Rects
        /\ cur = (IF BUG = "clip" THEN given ELSE Inter(given, B))
        /\ touched = {} /\ n = 0 /\ outer = <<cur>>
Put(S) == touched' = touched \cup S
Chars1 == \E k \in 0 .. Max(0, cur[4] - 1), d \in 0 .. Max(0, cur[3] - 1), w \in 0 .. BW + R :
    /\ Fits2(cur, k, d)
    /\ Put(IF BUG = "limit" THEN {<<x, cur[2] + k>> : x \in (cur[1] + d) .. (cur[1] + d + w - 1)} ELSE Run(cur, k, d, w))
    /\ UNCHANGED <<given, cur, outer>>
Style1 == Put(CellsOf(cur)) /\ UNCHANGED <<given, cur, outer>>
Within1 == \E p \in [1 .. 4 -> 0 .. 1] : cur' = Inner(cur, p) /\ outer' = Append(outer, cur) /\ UNCHANGED <<given, touched>>
Next == n < STEPS /\ n' = n + 1 /\ (Chars1 \/ Style1 \/ Within1)
Spec == Init /\ [][Next]_vars
(* nothing outside of the buffer is asked for, and nothing outside of the area touched *)
InBuffer == touched \subseteq CellsOf(B)
InArea == touched \subseteq CellsOf(given)
Nested == Len(outer) > 1 /\ ~Empty(cur) => \A i \in 1 .. Len(outer) : CellsOf(cur) \subseteq CellsOf(outer[i])
=============================================================================
