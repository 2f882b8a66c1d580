---------------------------- MODULE LayoutTrace ----------------------------
EXTENDS Layout, TraceKit
VARIABLE l

G == INSTANCE Geom
(* position and extent along the axis of a rectangle, and across *)
Along(r, dir) == IF dir = 1 THEN <<r[1], r[3]>> ELSE <<r[2], r[4]>>
Across(r, dir) == IF dir = 1 THEN <<r[2], r[4]>> ELSE <<r[1], r[3]>>

(* op "split": of area less the padding pad = <<top, right, bottom, left>>; segs and sps are what comes back, *)
(* same: whether asking again gave the same *)
Check(e, inner, a, N) ==
    LET n == Len(e.cs)
        r == [i \in DOMAIN e.segs |-> <<Along(e.segs[i], e.dir)[1] - a, Along(e.segs[i], e.dir)[1] + Along(e.segs[i], e.dir)[2] - a>>]
    IN  /\ Chk("L01", l, e.same = 1, "the same layout is split differently")
        /\ IF Len(e.segs) # n \/ Len(e.sps) # n + 1
           THEN Mismatch("L01", l, "number of segments " \o ToString(Len(e.segs)) \o " and spacers " \o ToString(Len(e.sps)))
           ELSE /\ Chk("L01", l, \A i \in 1 .. n : Across(e.segs[i], e.dir) = Across(inner, e.dir), "across: " \o ToString(e.segs))
                /\ Chk("L01", l, Inside(r, N), "not inside of the area: " \o ToString(r))
                /\ Chk("L01", l, Separated(r, N, e.flex, e.s), "spacing of " \o ToString(r))
                /\ Chk("L01", l, e.flex # 0 \/ Covers(r, N, e.s), "does not cover: " \o ToString(r))
                /\ Chk("L01", l, \A i \in 1 .. n - 1 : Along(e.sps[i + 1], e.dir) = <<a + r[i][2], Max2(0, Gap(r, i))>>, "spacers " \o ToString(e.sps))
                /\ Chk("L01", l, n = 0 \/ (Along(e.sps[1], e.dir) = <<a, r[1][1]>> /\ Along(e.sps[n + 1], e.dir) = <<a + r[n][2], N - r[n][2]>>), "outer spacers " \o ToString(e.sps))
                /\ IF e.s < 0 THEN TRUE ELSE
                     /\ \A U \in {Unfair(r, e.cs, N, e.flex)} :
                          Chk("L02", l, U = {}, "priorities: " \o ToString(Sizes(r)) \o " at " \o ToString(U))
                     /\ Chk("L02", l, ~Wasteful(r, e.cs, N, e.flex, e.s), "free space: " \o ToString(r))
                     /\ \A ex \in {Exact(e.cs, N, e.flex, e.s)} :
                          IF ex.q = 0 THEN TRUE
                          ELSE \A O \in {Off(r, ex)} :
                                /\ Chk("L03", l, O = {}, "positions: " \o ToString(r) \o " want " \o ToString(ex))
                                /\ Chk("L02", l, \A i \in O : SizeOk(r[i], ex.p[i], ex.q), "sizes: " \o ToString(r) \o " want " \o ToString(ex))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN /\ Mismatch("L01", l, e.fail) /\ Mismatch("L02", l, e.fail) /\ Mismatch("L03", l, e.fail)
             ELSE \E inner \in {G!Inner(e.area, e.pad)} :
                  IF G!Empty(inner) THEN Chk("L01", l, Len(e.segs) = Len(e.cs) /\ \A i \in DOMAIN e.segs : G!Empty(e.segs[i]) /\ G!NonNeg(e.segs[i]), "cells outside of an empty area")
                  ELSE Check(e, inner, Along(inner, e.dir)[1], Along(inner, e.dir)[2])
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
