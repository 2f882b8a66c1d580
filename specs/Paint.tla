------------------------------- MODULE Paint --------------------------------
(* What a widget painted: an event e has the buffer's area e.barea, the one cell e.old that filled it before, and *)
(* the cells e.cells afterwards, [symbol, foreground, background, modifiers, width of the symbol], row by row.    *)
EXTENDS Text, TraceKit

CellOf(j) == [s |-> j[1], f |-> j[2], b |-> j[3], m |-> ModSet[j[4]]]
PIdx(a, x, y) == (y - a[2]) * a[3] + (x - a[1]) + 1
Old(e) == CellOf(e.old)
Now(e, x, y) == CellOf(e.cells[PIdx(e.barea, x, y)])
SymW(e, x, y) == e.cells[PIdx(e.barea, x, y)][5]
Sym(e, x, y) == e.cells[PIdx(e.barea, x, y)][1]
Xs(r) == Left(r) .. (Right(r) - 1)
Ys(r) == Top(r) .. (Bottom(r) - 1)
PosIn(e, k) == <<e.barea[1] + ((k - 1) % e.barea[3]), e.barea[2] + ((k - 1) \div e.barea[3])>>
(* the cells outside of area that changed *)
Strayed(e, area) == {k \in DOMAIN e.cells : LET p == PosIn(e, k) IN ~Contains(area, p) /\ e.cells[k] # e.old}
(* a row of the area: the written cells from the first to the last one (unwritten ones show the old symbol; those under *)
(* the right half of a wide symbol do not matter), and the column of the area at which they start                        *)
Written(e, area, y) ==
    LET scan == Fold(LAMBDA acc, x :
            IF acc.skip > 0 THEN [acc EXCEPT !.skip = @ - 1]
            ELSE LET j == e.cells[PIdx(e.barea, x, y)] IN
                 [acc EXCEPT !.skip = IF j[5] > 1 THEN j[5] - 1 ELSE 0,
                             !.cs = Append(@, [s |-> j[1], w |-> j[5], x |-> x, f |-> j[2], b |-> j[3], m |-> ModSet[j[4]]])],
            [skip |-> 0, cs |-> <<>>], [k \in 1 .. area[3] |-> area[1] + k - 1])
        on == {i \in DOMAIN scan.cs : scan.cs[i].s # e.old[1]}
    IN  IF on = {} THEN [r |-> <<>>, at |-> 0]
        ELSE LET a == CHOOSE a \in on : \A i \in on : a <= i
                 b == CHOOSE b \in on : \A i \in on : b >= i
             IN  [r |-> SubSeq(scan.cs, a, b), at |-> scan.cs[a].x - area[1]]

(* ---- what cells may show. O is the set of what a cell may be, {} if anything (under the right half of a wide symbol). *)
PutStyle(O, st) == {Styled(c, st) : c \in O}
PutSym(O, s, st) == {Styled([c EXCEPT !.s = s], st) : c \in O}
PutChar(O, ch, st) == {Styled([c EXCEPT !.s = s], st) : c \in O, s \in {ch.s} \cup {ch.ss[i] : i \in DOMAIN ch.ss}}
(* a line of characters cs, styled lst, aligned al in the w columns from x0 of row y, ready to be painted; ts: a style that *)
(* is applied to these columns before                                                                                       *)
Placed(x0, y, w, cs, lst, al, ts) == [x |-> x0, y |-> y, w |-> w, cs |-> cs, win |-> Window(cs, Aligned(al, w, WidthOf(cs)), w), st |-> lst, ts |-> ts]
PutLine(O, x, y, p) ==
    IF y # p.y \/ x < p.x \/ x >= p.x + p.w THEN O
    ELSE LET k == p.win[x - p.x]   O1 == PutStyle(O, p.ts) IN
         IF k = -1 THEN {}
         ELSE IF k = 0 THEN O1 \cup PutStyle(O1, p.st)
         ELSE PutChar(O1, p.cs[k], p.cs[k].st)
(* the rows of a text in area *)
PlacedText(t, area) ==
    [i \in 1 .. (IF area[3] = 0 THEN 0 ELSE Min(Len(t.ls), area[4])) |->
        Placed(area[1], area[2] + i - 1, area[3], Visible(LineChars(t.ls[i], t.st, FALSE)), Patched(t.st, t.ls[i].st), Pick(t.ls[i].al, t.al), NoStyle)]
PutText(O, x, y, area, st, placed) ==
    IF ~Contains(area, <<x, y>>) THEN O
    ELSE LET i == y - area[2] + 1   O1 == PutStyle(O, st) IN IF i \in DOMAIN placed THEN PutLine(O1, x, y, placed[i]) ELSE O1
(* the recorded form of styles and texts *)
Sty(st) == Build(NoStyle, st)
Span(j) == [st |-> Sty(j.st), gs |-> j.gs]
LineOf(j) == [al |-> j.al, st |-> Sty(j.st), sp |-> [i \in DOMAIN j.sp |-> Span(j.sp[i])]]
TextOf(j) == [al |-> j.al, st |-> Sty(j.st), ls |-> [i \in DOMAIN j.ls |-> LineOf(j.ls[i])]]
(* nothing outside of area changed; reported for prop and for W01 *)
Stray(e, ln, area, prop) ==
    \A S \in {Strayed(e, area)} :
        IF S = {} THEN TRUE
        ELSE LET k == CHOOSE k \in S : \A i \in S : k <= i  w == e.op \o ": cell outside of the area changed: " \o ToString(PosIn(e, k)) IN
             Mismatch(prop, ln, w) /\ Mismatch("W01", ln, w)
(* every cell of area is one of want(x, y) *)
Cells2(e, ln, area, want(_, _), prop) ==
    \A B \in {{p \in Xs(area) \X Ys(area) : LET W == want(p[1], p[2]) IN W # {} /\ Now(e, p[1], p[2]) \notin W}} :
        IF B = {} THEN TRUE
        ELSE LET p == CHOOSE p \in B : \A q \in B : p[2] < q[2] \/ (p[2] = q[2] /\ p[1] <= q[1]) IN
             Mismatch(prop, ln, e.op \o ": cell " \o ToString(<<p[1] - area[1], p[2] - area[2]>>) \o " is " \o ToString(Now(e, p[1], p[2])) \o " of " \o ToString(want(p[1], p[2])))
=============================================================================
