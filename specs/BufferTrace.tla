---------------------------- MODULE BufferTrace ----------------------------
EXTENDS Buffer, TraceKit
VARIABLES l, buf, cell

CellOf(j) == [s |-> j[1], f |-> j[2], b |-> j[3], m |-> ModSet[j[4]]]
BufOf(a, c) == [a |-> a, c |-> [i \in DOMAIN c |-> CellOf(c[i])]]

Sty(e) == Build(NoStyle, e.st)

(* what the buffer and the returned position are after the operation *)
After(e) ==
    CASE e.op = "new" -> [buf |-> Filled(e.area, CellOf(e.cell)), x |-> 0, y |-> 0]
      [] e.op = "reset" -> [buf |-> ResetAll(buf), x |-> 0, y |-> 0]
      [] e.op = "set" -> [buf |-> SetSymbol(buf, e.x, e.y, e.sym, Sty(e)), x |-> 0, y |-> 0]
      [] e.op = "string" -> SetString(buf, e.x, e.y, e.gs, e.n, Sty(e))
      [] e.op = "style" -> [buf |-> SetStyle(buf, e.area, Sty(e)), x |-> 0, y |-> 0]

Bad(b, got) == {i \in DOMAIN b.c : b.c[i] # got.c[i]}
ChkBuf(e, want, got) ==
    IF Len(got.c) # Len(want.buf.c) THEN Mismatch("S03", l, e.op \o ": the buffer has " \o ToString(Len(got.c)) \o " cells")
    ELSE /\ \A S \in {Bad(want.buf, got)} :
               IF S = {} THEN TRUE
               ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN
                    Mismatch("S03", l, e.op \o ": cell " \o ToString(i) \o " is " \o ToString(got.c[i]) \o " want " \o ToString(want.buf.c[i]))
         /\ IF e.op = "string" /\ e.pos = 1 THEN ChkEq("S03", l, <<e.rx, e.ry>>, <<want.x, want.y>>, "returned position") ELSE TRUE
         /\ ChkEq("S03", l, e.barea, want.buf.a, "area of the buffer")

BufStep(e) ==
    \E want \in {After(e)} : \E got \in {BufOf(want.buf.a, e.cells)} :
        /\ ChkBuf(e, want, got)
        /\ buf' = got /\ cell' = cell

(* ---- single cells and styles (S04) *)
CellStep(e) ==
    \E want \in {CASE e.op = "cnew" -> [BlankCell EXCEPT !.s = e.sym]
                   [] e.op = "cstyle" -> Styled(cell, Sty(e))
                   [] e.op = "creset" -> BlankCell
                   [] e.op = "csym" -> [cell EXCEPT !.s = e.sym]
                   [] e.op = "capp" -> [cell EXCEPT !.s = @ \o e.sym]
                   [] e.op = "cfg" -> [cell EXCEPT !.f = e.sym]
                   [] e.op = "cbg" -> [cell EXCEPT !.b = e.sym]} :
    \E got \in {CellOf(e.cell)} :
        /\ ChkEq("S04", l, got, want, e.op)
        /\ cell' = got /\ buf' = buf

(* three styles: applied in turn, and combined in every way *)
LawStep(e) ==
    \E a \in {Build(NoStyle, e.a)} : \E b \in {Build(NoStyle, e.b)} : \E c \in {Build(NoStyle, e.d)} : \E k \in {CellOf(e.cell)} :
        \E want \in {Styled(Styled(Styled(k, a), b), c)} :
            /\ \A i \in DOMAIN e.rs : ChkEq("S04", l, CellOf(e.rs[i]), want, "styles in turn or combined, way " \o ToString(i))
            /\ buf' = buf /\ cell' = cell

Init == l = 1 /\ buf = [a |-> <<0, 0, 0, 0>>, c |-> <<>>] /\ cell = BlankCell
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN Mismatch(IF e.op \in {"cnew", "cstyle", "creset", "csym", "capp", "cfg", "cbg", "laws"} THEN "S04" ELSE "S03", l, e.op \o ": " \o e.fail) /\ UNCHANGED <<buf, cell>>
             ELSE IF e.op \in {"new", "reset", "set", "string", "style"} THEN BufStep(e)
             ELSE IF e.op = "laws" THEN LawStep(e)
             ELSE CellStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, buf, cell>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
