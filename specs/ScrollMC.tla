------------------------------ MODULE ScrollMC ------------------------------
(* All histories of a scroll state of small size, and all bars: the position stays in range, the thumb on its track, it touches the ends at *)
(* the first and last positions and nowhere goes back when the position grows.                                                               *)
EXTENDS Scroll
CONSTANTS MAXN, MAXT, BUG
VARIABLES t, T
Init == t \in {NewState(n) : n \in 0 .. MAXN} /\ T = 1
Next == \/ UNCHANGED T /\ t' = Next1(t)
        \/ UNCHANGED T /\ t' = Prev1(t)
        \/ UNCHANGED T /\ t' = At(t, t.n)
        \/ UNCHANGED T /\ \E p \in -1 .. MAXN + 1 : t' = At(t, p)
        \/ UNCHANGED T /\ \E v \in 0 .. MAXN + 1 : t' = [t EXCEPT !.v = v]
        \/ T < MAXT /\ T' = T + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, T>>
V == Visible2(t, T)
Th(u) == IF BUG = "plain" THEN {<<Min(T, (u.pos * T) \div Max(1, u.n)), Max(1, (V * T) \div (u.n + V))>>} ELSE Thumbs(u, V, T)
InRange == t.pos \in 0 .. LastOf(t.n)
OnTrack == t.n > 0 => \A h \in Th(t) : h[1] >= 0 /\ h[2] >= 1 /\ h[1] + h[2] <= T
TouchesFirst == t.n > 0 /\ t.pos = 0 => \A h \in Th(t) : h[1] = 0
TouchesLast == t.n > 0 /\ t.pos = LastOf(t.n) => \A h \in Th(t) : h[1] + h[2] = T
Forward1 == t.n > 0 => \A h \in Th(t) : \E k \in Th(Next1(t)) : h[1] <= k[1] /\ \A m \in Th(Next1(t)) : m[1] >= h[1] \/ \E j \in Th(t) : j[1] <= m[1]
(* of all that can be seen, the thumb is as large a part of the track as what is visible, to the cell *)
Size1 == t.n > 0 => \A h \in Th(t) : h[2] = 1 \/ (h[2] - 1) * (LastOf(t.n) + V) <= V * T
BarAside == \A o \in {"right", "left", "top", "bottom"} : \A a \in {<<2, 3, T, 4>>, <<2, 3, 4, T>>, <<2, 3, T, 1>>} :
    \A in \in {InnerOfBar(o, a)}, b \in {LineOfBar(o, a)} : Cells(in) \cup Cells(b) = Cells(a) /\ Cells(in) \cap Cells(b) = {}
=============================================================================
