----------------------------- MODULE PaintTrace -----------------------------
(* Renderings of all widgets (property W01): the visible part of the area is all that may change; nothing else is looked at. *)
EXTENDS Paint
VARIABLE l
PaintStep(e) ==
    /\ ChkEq("W01", l, Len(e.cells), e.barea[3] * e.barea[4], e.op \o ": cells of the buffer")
    /\ Stray(e, l, Inter(e.area, e.barea), "W01")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} : IF e.fail # "" THEN Mismatch("W01", l, e.op \o ": " \o e.fail) ELSE PaintStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
