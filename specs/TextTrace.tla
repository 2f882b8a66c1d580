----------------------------- MODULE TextTrace -----------------------------
EXTENDS Paint, Wrap
VARIABLE l

(* ---- op "text": a text, a line (how = "line") or a span ("span") rendered into area *)
CellOk(e, c, got, base) ==
    /\ Shows(c, got.s) /\ [got EXCEPT !.s = ""] = [Styled(base, c.st) EXCEPT !.s = ""]
(* the row y of the visible area vis shows the line; the rest of a wide character is blank (where characters without width *)
(* that follow it may end up) *)
RECURSIVE Covers(_, _)
Covers(win, k) == IF win[k] = -1 THEN Covers(win, k - 1) ELSE win[k]
RowBad(e, vis, y, cs, al, base, lineSt) ==
    LET win == Window(cs, Aligned(al, vis[3], WidthOf(cs)), vis[3])
    IN  {x \in Xs(vis) : LET k == win[x - vis[1]]  got == Now(e, x, y) IN
            IF k = -1 THEN got.s # " " /\ Len(cs[Covers(win, x - vis[1])].ss) = 1
            ELSE IF k = 0 THEN got \notin {Styled(Old(e), base), Styled(Old(e), Patched(base, lineSt))}
            ELSE ~CellOk(e, cs[k], got, Old(e))}
TextStep(e) ==
    \E t \in {TextOf(e.t)} : \E vis \in {Inter(e.area, e.barea)} :
        \E base \in {IF e.how = "text" THEN t.st ELSE NoStyle} :
        \E n \in {IF Empty(vis) THEN 0 ELSE IF e.how = "text" THEN Min(Len(t.ls), vis[4]) ELSE Min(1, vis[4])} :
        /\ Stray(e, l, IF e.how = "text" THEN vis ELSE [vis EXCEPT ![4] = n], "T01")
        /\ \A i \in 1 .. n :
             \A cs \in {Visible(IF e.how = "span" THEN Chars(t.ls[1].sp[1].gs, t.ls[1].sp[1].st, FALSE) ELSE LineChars(t.ls[i], base, FALSE))} :
             \A y \in {vis[2] + i - 1} :
             \A B \in {RowBad(e, vis, y, cs, IF e.how = "span" THEN 1 ELSE IF e.how = "line" THEN t.ls[i].al ELSE Pick(t.ls[i].al, t.al), base,
                              IF e.how = "span" THEN NoStyle ELSE t.ls[i].st)} :
                IF B = {} THEN TRUE
                ELSE LET x == CHOOSE x \in B : \A z \in B : x <= z IN Mismatch("T01", l, e.how \o " " \o ToString(i) \o ": column " \o ToString(x - vis[1]) \o " is " \o ToString(Now(e, x, y)))
        /\ IF e.how # "text" \/ Empty(vis) THEN TRUE
           ELSE \A y \in (vis[2] + n) .. (Bottom(vis) - 1) : \A x \in Xs(vis) :
                  ChkEq("T01", l, Now(e, x, y), Styled(Old(e), base), "below the text")

(* ---- op "size": width, height of a text, and what it says *)
Plain(line) == Fold(LAMBDA acc, sp : acc \o sp.gs, <<>>, line.sp)
MaxWidth(t) == Fold(LAMBDA m, ln : Max(m, WidthOf(Visible(LineChars(ln, NoStyle, FALSE)))), 0, t.ls)
SizeStep(e) == \E t \in {TextOf(e.t)} : ChkEq("T01", l, <<e.w, e.h>>, <<MaxWidth(t), Len(t.ls)>>, "size of a text")

(* ---- characters written from column x0 of row y0 on; in columns from far on anything may be *)
WriteCell(old, cs, at, x0, far, x) ==
    LET on == {i \in DOMAIN cs : x0 + at[i] <= x /\ x < x0 + at[i] + cs[i].w} IN
    IF on = {} THEN (IF x >= far THEN {} ELSE {old})
    ELSE LET i == CHOOSE i \in on : TRUE IN IF x0 + at[i] = x THEN PutChar({old}, cs[i], cs[i].st) ELSE {[s |-> " ", f |-> Reset, b |-> Reset, m |-> {}]}
(* op "print": a line or a span printed at a position; what follows a character that does not fit any more is open *)
PrintStep(e) ==
    \E t \in {TextOf(e.t)} : \E room \in {Min(e.n, Right(e.barea) - e.x)} :
    \E cs \in {Visible(IF e.how = "span" THEN Chars(t.ls[1].sp[1].gs, t.ls[1].sp[1].st, FALSE) ELSE LineChars(t.ls[1], NoStyle, FALSE))} :
    \E f \in {Fitting(cs, room)} : \E end \in {e.x + WidthOf(f)} :
        /\ Stray(e, l, <<e.x, e.y, room, 1>>, "T01")
        /\ \A at \in {Starts(f)} : Cells2(e, l, <<e.x, e.y, room, 1>>, LAMBDA x, y : WriteCell(Old(e), f, at, e.x, IF Len(f) < Len(cs) THEN end ELSE Right(e.barea), x), "T01")
        /\ Chk("T01", l, e.ret[2] = e.y /\ (IF Len(f) = Len(cs) THEN e.ret[1] = end ELSE e.ret[1] \in end .. e.x + room), "print: ends at " \o ToString(e.ret))
(* op "newbuf": a buffer made of lines *)
NewBufStep(e) ==
    \E t \in {TextOf(e.t)} : \E W \in {MaxWidth(t)} :
        IF e.barea # <<0, 0, W, Len(t.ls)>> THEN Mismatch("T01", l, "newbuf: the buffer made of lines has the area " \o ToString(e.barea))
        ELSE \A i \in DOMAIN t.ls : \A cs \in {Visible(LineChars(t.ls[i], NoStyle, FALSE))} : \A at \in {Starts(cs)} :
                Cells2(e, l, <<0, i - 1, W, 1>>, LAMBDA x, y : WriteCell(Old(e), cs, at, 0, W, x), "T01")
(* op "str": lines and texts as strings *)
Cat(ss) == Fold(LAMBDA acc, s : acc \o s, "", ss)
StrStep(e) ==
    /\ ChkEq("T01", l, e.got, [i \in DOMAIN e.parts |-> Cat(e.parts[i])], "lines as strings")
    /\ \A want \in {Fold(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE "<a>") \o Cat(e.parts[i]), "", [i \in DOMAIN e.parts |-> i])} :
         ChkEq("T01", l, <<e.text, e.lines>>, <<want, want>>, "a text as a string")

(* ---- op "lines": a string with graphemes gs was made into lines; op "long": only their lengths, as graphemes are many *)
SymsOf(gs) == [i \in DOMAIN gs |-> gs[i].s]
Keep(gs) == SymsOf(SelectSeq(gs, LAMBDA g : g.w >= 0))
LinesStep(e) ==
    \A W \in {IF e.gs = <<>> THEN <<"">> ELSE LinesOf(e.gs)} :
        ChkEq("T01", l, [i \in DOMAIN e.got |-> Keep(e.got[i])], [i \in DOMAIN W |-> IF e.gs = <<>> THEN <<>> ELSE Keep(W[i])], "lines of a string")
LongStep(e) == ChkEq("T01", l, e.got, e.lens, "lengths of the lines") /\ ChkEq("T02", l, e.got, e.lens, "lengths of the lines")

(* ---- op "derive": two values made from one by adding parts *)
DeriveStep(e) ==
    /\ ChkEq("T01", l, e.base2, e.base, "the value that others were made from")
    /\ ChkEq("T01", l, e.d1, e.base \o e.add1, "first value made")
    /\ ChkEq("T01", l, e.d2, e.base \o e.add2, "second value made")

(* ---- op "para": a paragraph, in its area less a border of width e.blk; wrap 0 none, 1 keeping, 2 trimming blanks. *)
(* For wrapped ones e.rows is how many rows it takes (from a rendering that is tall enough: sy = 0).                    *)
Al(a, p) == LET x == Pick(a, p) IN IF x = 0 THEN 1 ELSE x
Fits(cs, W) == SelectSeq(cs, LAMBDA c : c.w <= W)
StyleBad(e, base, shown, want) == {i \in DOMAIN shown : [shown[i] EXCEPT !.s = "", !.w = 0, !.x = 0] # [s |-> "", w |-> 0, x |-> 0, f |-> Styled(base, want[i].st).f, b |-> Styled(base, want[i].st).b, m |-> Styled(base, want[i].st).m]}
AllRows(e, in) == [i \in 1 .. in[4] |-> Written(e, in, in[2] + i - 1)]
(* drops the rows at the end that show nothing *)
RECURSIVE Used(_)
Used(R) == IF R = <<>> THEN <<>> ELSE IF R[Len(R)].r = <<>> THEN Used(SubSeq(R, 1, Len(R) - 1)) ELSE R
WrapAll(Ls, R, e, aligned) == \E n \in Len(Used(R)) .. Len(R) : Divides(Ls, 1, SubSeq(R, 1, n), 1, e.area[3] - 2 * e.blk, e.wrap = 2, aligned)
WrappedStep(e, t, in, base) ==
    \A Ls \in {[i \in DOMAIN t.ls |-> [cs |-> Fits(LineChars(t.ls[i], t.st, TRUE), in[3]), al |-> Al(t.ls[i].al, e.al)]]} :
    \A R \in {AllRows(e, in)} :
        /\ IF WrapAll(Ls, R, e, FALSE)
           THEN /\ Chk("T03", l, WrapAll(Ls, R, e, TRUE), "wrapped rows are not aligned")
                /\ \A shown \in {Fold(LAMBDA acc, r : acc \o NonBlank(r.r), <<>>, R)} :
                   \A want \in {Fold(LAMBDA acc, ln : acc \o NonBlank(ln.cs), <<>>, Ls)} :
                     Chk("T03", l, StyleBad(e, base, shown, want) = {}, "styles of a wrapped paragraph")
           ELSE Mismatch("T02", l, "rows " \o ToString([i \in DOMAIN R |-> Syms(R[i].r)]) \o ": " \o Reason(Ls, Used(R), in[3], e.wrap = 2))
UnwrappedStep(e, t, in, base) ==
    \A i \in 1 .. in[4] :
        \A cs \in {IF e.sy + i > Len(t.ls) THEN <<>> ELSE Unwrapped(LineChars(t.ls[e.sy + i], t.st, TRUE), in[3], e.sx, Al(t.ls[e.sy + i].al, e.al))} :
        \A R \in {Written(e, in, in[2] + i - 1)} :
            IF Len(cs) # Len(R.r) THEN Mismatch("T03", l, "row " \o ToString(i) \o " shows " \o ToString(Syms(R.r)) \o " of " \o ToString(Syms(cs)))
            ELSE IF cs = <<>> THEN TRUE
            ELSE /\ Chk("T03", l, \A k \in DOMAIN cs : Shows(cs[k], R.r[k].s), "row " \o ToString(i) \o " shows " \o ToString(Syms(R.r)) \o " for " \o ToString(Syms(cs)))
                 /\ Chk("T03", l, R.at \in Margin(Al(t.ls[e.sy + i].al, e.al), in[3], WidthOf(cs)), "row " \o ToString(i) \o " starts at " \o ToString(R.at))
                 /\ Chk("T03", l, StyleBad(e, base, R.r, cs) = {}, "styles of row " \o ToString(i))
ParaStep(ev) ==
    \E e \in {[ev EXCEPT !.area = Inter(ev.area, ev.barea)]} :
    \E t \in {TextOf(e.t)} : \E base \in {Styled(Old(e), Sty(e.st))} : \E in \in {Inner(e.area, Pad1(e.blk))} :
        /\ Stray(e, l, e.area, "T03")
        /\ IF Empty(in) THEN TRUE
           ELSE /\ IF e.wrap = 0 THEN UnwrappedStep(e, t, in, base)
                   ELSE IF e.sy = 0 /\ e.tall = 1 THEN WrappedStep(e, t, in, base) ELSE TRUE
                (* a rendering that is scrolled shows the rows that one that is not shows further down *)
                /\ IF e.full = <<>> THEN TRUE
                   ELSE \A y \in Ys(in) : \A x \in Xs(in) :
                        LET k == (y - in[2] + e.sy) * in[3] + (x - in[1]) + 1 IN
                        IF k > Len(e.full) THEN TRUE
                        ELSE IF e.cells[PIdx(e.barea, x, y)] = e.full[k] THEN TRUE
                        ELSE Mismatch("T03", l, "scrolled by " \o ToString(e.sy) \o " the cell " \o ToString(<<x - in[1], y - in[2]>>) \o " shows " \o ToString(Now(e, x, y)))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN /\ Mismatch("W01", l, e.op \o ": " \o e.fail)
                                 /\ IF e.op = "para" THEN Mismatch("T03", l, e.fail) /\ (IF e.wrap > 0 THEN Mismatch("T02", l, e.fail) ELSE TRUE) ELSE Mismatch("T01", l, e.op \o ": " \o e.fail)
             ELSE CASE e.op = "text" -> TextStep(e)
                    [] e.op = "size" -> SizeStep(e)
                    [] e.op = "print" -> PrintStep(e)
                    [] e.op = "newbuf" -> NewBufStep(e)
                    [] e.op = "str" -> StrStep(e)
                    [] e.op = "lines" -> LinesStep(e)
                    [] e.op = "long" -> LongStep(e)
                    [] e.op = "derive" -> DeriveStep(e)
                    [] e.op = "para" -> ParaStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
