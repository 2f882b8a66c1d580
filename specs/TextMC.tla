------------------------------- MODULE TextMC -------------------------------
(* What Window and Unwrapped of Text mean, for all short lines, widths, alignments and offsets. *)
EXTENDS Text
CONSTANTS MAXLEN, MAXA, BUG
VARIABLES t, done

G == {[s |-> "a", w |-> 1], [s |-> "W", w |-> 2]}
Init == t = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(t) < MAXLEN /\ \E g \in G : t' = Append(t, g) /\ done' = FALSE
        \/ ~done /\ done' = TRUE /\ t' = t
Spec == Init /\ [][Next]_<<t, done>>
L == WidthOf(t)
Al(al, A) == IF BUG = "round" /\ al = 2 /\ L <= A THEN (A - L + 1) \div 2 ELSE Aligned(al, A, L)
W(al, A) == Window(t, Al(al, A), A)
(* the columns of the line that the row shows: column k of the row is column k + skip of the line *)
ColumnOf(c) == IF c < 0 \/ c >= L THEN 0 ELSE CHOOSE i \in DOMAIN t : Starts(t)[i] <= c /\ c < Starts(t)[i] + t[i].w
WindowMeans ==
    \A A \in 1 .. MAXA : \A al \in 1 .. 3 : \A w \in {W(al, A)} :
        LET shown == {w[k] : k \in 0 .. A - 1} \ {0, -1}
            free(P) == Cardinality({k \in 0 .. A - 1 : w[k] = 0 /\ P})
            lead == IF \A k \in 0 .. A - 1 : w[k] = 0 THEN A ELSE CHOOSE k \in 0 .. A - 1 : w[k] # 0 /\ \A j \in 0 .. k - 1 : w[j] = 0
            trail == IF \A k \in 0 .. A - 1 : w[k] = 0 THEN 0 ELSE A - 1 - (CHOOSE k \in 0 .. A - 1 : w[k] # 0 /\ \A j \in k + 1 .. A - 1 : w[j] = 0)
        IN  /\ \A i, j \in shown : \A k \in i .. j : k \in shown                      \* contiguous
            /\ \A k \in 0 .. A - 1 : w[k] > 0 /\ t[w[k]].w = 2 => k + 1 < A /\ w[k + 1] = -1   \* nothing is cut
            /\ \A k, j \in 0 .. A - 1 : k < j /\ w[k] > 0 /\ w[j] > 0 => w[k] < w[j]      \* in order
            /\ L <= A => /\ shown = DOMAIN t
                         /\ t # <<>> => CASE al = 1 -> lead = 0 [] al = 3 -> trail = 0 [] al = 2 -> trail - lead \in {0, 1}
            /\ L > A => LET skip == CASE al = 1 -> 0 [] al = 3 -> L - A [] al = 2 -> (L - A) \div 2 IN
                        shown = {i \in DOMAIN t : Starts(t)[i] >= skip /\ Starts(t)[i] + t[i].w <= skip + A}
Narrow == \A i \in DOMAIN t : t[i].w = 1
UnwrappedMeans ==
    \A A \in 1 .. MAXA : \A x \in 0 .. MAXA : \A al \in 1 .. 3 : \A u \in {Unwrapped(t, A, x, al)} : \A ok \in {SelectSeq(t, LAMBDA c : c.w <= A)} :
        /\ WidthOf(u) <= A
        /\ \E a \in 0 .. Len(ok) : /\ u = SubSeq(ok, a + 1, a + Len(u))                    \* a stretch of the line
                                   /\ a + Len(u) < Len(ok) => WidthOf(u) + ok[a + Len(u) + 1].w > A   \* with as much as fits
                                   /\ al # 1 => a = 0
        /\ Narrow /\ al = 1 => u = SubSeq(t, x + 1, Min(Len(t), x + A))
        /\ x = 0 => u = Unwrapped(t, A, 0, 2)
Inv == done => WindowMeans /\ UnwrappedMeans
=============================================================================
