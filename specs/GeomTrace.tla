------------------------------ MODULE GeomTrace ------------------------------
EXTENDS Geom, TraceKit
VARIABLE l

Expected(e) ==
    CASE e.op = "inter" -> SameCells(e.r, Inter(e.a, e.b))
      [] e.op = "contains" -> e.r = <<IF Contains(e.a, e.b) THEN 1 ELSE 0>>
      [] e.op = "facts" -> e.r = <<Area(e.a), IF Empty(e.a) THEN 1 ELSE 0, Left(e.a), Right(e.a), Top(e.a), Bottom(e.a)>>
      [] e.op = "rows" -> e.r = Rows(e.a) \/ (Empty(e.a) /\ \A i \in DOMAIN e.r : Empty(e.r[i]))
      [] e.op = "cols" -> e.r = Cols(e.a) \/ (Empty(e.a) /\ \A i \in DOMAIN e.r : Empty(e.r[i]))
      [] e.op \in {"inner", "innerwith"} -> SameCells(e.r, Inner(e.a, e.b))
      [] e.op = "innerlate" ->
            SameCells(e.r, Inner(e.a, [i \in 1 .. 4 |-> IF i = e.b[9] + 1 THEN e.b[i] ELSE e.b[4 + i]]))
      [] e.op = "inner1" -> SameCells(e.r, Inner(e.a, Pad1(e.b[1])))
      [] e.op = "inner2" -> SameCells(e.r, Inner(e.a, Pad2(e.b[1], e.b[2])))
      [] e.op = "indent" -> SameCells(e.r, Indent(e.a, e.b[1]))
      [] e.op = "positioned" -> e.r = <<e.b[1], e.b[2], e.a[3], e.a[4]>>
      [] e.op = "withwidth" -> e.r = <<e.a[1], e.a[2], e.b[1], e.a[4]>>
      [] e.op = "withheight" -> e.r = <<e.a[1], e.a[2], e.a[3], e.b[1]>>
      [] e.op = "new" -> e.r = <<0, 0, e.a[3], e.a[4]>>
      [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             IF e.fail # "" THEN Mismatch("G01", l, e.fail)
             ELSE Chk("G01", l, Expected(e), e.op \o " gave " \o ToString(e.r))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
