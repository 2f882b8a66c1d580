---------------------------- MODULE BlockTrace -----------------------------
EXTENDS Block
VARIABLE l

BlockStep(e) ==
    \A b \in {BlockOf(e.b)} : \A vis \in {Inter(e.area, e.barea)} :
    \A ts \in {IF Empty(vis) THEN <<>> ELSE Titles(b, vis)} :
        /\ Stray(e, l, vis, "W05")
        /\ IF Empty(vis) THEN TRUE ELSE Cells2(e, l, vis, LAMBDA x, y : PutBlock({Old(e)}, x, y, b, vis, ts), "W05")
        /\ \A in \in {InnerOf(b, e.area)} :
              IF Empty(in) THEN Chk("W05", l, e.inner[3] >= 0 /\ e.inner[4] >= 0 /\ e.inner[3] * e.inner[4] = 0, "inner area " \o ToString(e.inner) \o " is not empty")
              ELSE ChkEq("W05", l, e.inner, in, "inner area")

DeriveStep(e) ==
    /\ ChkEq("W05", l, e.d1, e.want1, "a block derived from a common one")
    /\ ChkEq("W05", l, e.d2, e.want2, "another block derived from it")
    /\ ChkEq("W05", l, e.base2, e.base, "the block they were derived from")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN Mismatch("W01", l, e.op \o ": " \o e.fail) /\ Mismatch("W05", l, e.op \o ": " \o e.fail)
             ELSE CASE e.op = "block" -> BlockStep(e)
                    [] e.op = "derive" -> DeriveStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
