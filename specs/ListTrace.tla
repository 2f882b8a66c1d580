------------------------------ MODULE ListTrace ------------------------------
(* Lists of the real code against List. After every step the state tells its selection; where it begins is told by what a rendering shows. *)
EXTENDS List
VARIABLES l, t, k                                              \* k: the copy of a state that was laid aside
vars == <<l, t, k>>
After(e) ==
    CASE e.op = "new" -> NewList
      [] e.op = "select" -> Select(t, e.n)
      [] e.op = "next" -> NextItem(t)
      [] e.op = "prev" -> PrevItem(t)
      [] e.op = "first" -> Select(t, 0)
      [] e.op = "last" -> Select(t, Inf)
      [] e.op = "down" -> Down(t, e.n)
      [] e.op = "up" -> Down(t, -e.n)
      [] e.op = "unselect" -> NewList
      [] e.op = "offset" -> SetOff(t, e.n)
      [] e.op = "other" -> t
      [] e.op = "fork" -> t                                      \* a copy is laid aside, as it is now
      [] e.op = "back" -> k                                      \* ... and taken up again, whatever became of the other one
Far == Inf \div 2                                              \* beyond the end of any list
Same(a, b) == a = b \/ (a > Far /\ b > Far)
Told(e, u) ==
    /\ Chk("W02", l, Same(e.sel, u.sel), e.op \o " from " \o ToString(t.sel) \o " selects " \o ToString(e.sel) \o " instead of " \o ToString(u.sel))
    /\ ChkEq("W02", l, e.lim, IF u.sel = None THEN None ELSE Min(u.sel, 2), e.op \o ": selection of at most 2")
StateStep(e) ==
    \E u \in {After(e)} : t' = u /\ Told(e, u) /\ k' = (IF e.op = "new" THEN NewList ELSE IF e.op \in {"fork", "back"} THEN t ELSE k)
        /\ IF e.via = 1 THEN Chk("W02", l, e.ok = (IF e.op = "other" THEN 0 ELSE 1), "key of " \o e.op \o ": taken " \o ToString(e.ok)) ELSE TRUE

(* ---- rendering: the items f .. g - 1, the k-th of them in the rows rows(k) *)
RowsTop(e, in, h, f, n) == IF e.dir = 0 THEN in[2] + HeightOf(h, f, n - 1) ELSE in[2] + in[4] - HeightOf(h, f, n)
Placement(e, W, in, h, f, g, u) ==
    LET sym == Visible(Chars(e.sym, NoStyle, FALSE))  sw == WidthOf(sym)  hs == e.hs = 1 \/ (e.hs = 0 /\ u.sel # None)
        blank == [i \in 1 .. sw |-> [s |-> " ", w |-> 1, st |-> NoStyle, ss |-> <<>>]] IN
    [n \in f .. g - 1 |->
        LET y0 == RowsTop(e, in, h, f, n)  st == Patched(Sty(e.st), W[n + 1].st)
            row == <<in[1], y0, in[3], h[n + 1]>>
            ia == IF hs THEN <<in[1] + sw, y0, Max(0, in[3] - sw), h[n + 1]>> ELSE row
            on == Fitting(sym, in[3])  off == Fitting(blank, in[3]) IN
        [row |-> row, ia |-> ia, st |-> st, placed |-> PlacedText(W[n + 1], ia), here |-> u.sel = n,
         first |-> IF ~hs THEN <<>> ELSE IF u.sel = n THEN on ELSE off, other |-> IF ~hs THEN <<>> ELSE IF u.sel = n /\ e.rep = 1 THEN on ELSE off]]
Sts(cs, st) == [i \in DOMAIN cs |-> [cs[i] EXCEPT !.st = st]]
PutItem(O, x, y, it, txt, hl) ==
    IF ~Contains(it.row, <<x, y>>) THEN O
    ELSE LET cs == Sts(IF y = it.row[2] THEN it.first ELSE it.other, it.st)
             O1 == PutText(PutStyle(O, it.st), x, y, it.ia, txt.st, it.placed)
             O2 == PutChars(O1, x, y, it.row[1], y, cs, Starts(cs))
         IN  IF it.here THEN PutStyle(O2, hl) ELSE O2
RenderStep(e) ==
    \E b \in {BlockIn(e.blk)} : \E vis \in {Inter(e.area, e.barea)} : \E in \in {InnerOf(b, vis)} :
    \E h \in {[i \in DOMAIN e.items |-> Len(e.items[i].ls)]} :
    \E s \in {IF e.plain = 1 THEN NewList ELSE t} :                \* without a state: as with a new one, and the one there is stays as it was
    \E u \in {IF Empty(in) THEN s ELSE Settled(h, in[4], s, e.pad)} :
        /\ t' = (IF e.plain = 1 THEN t ELSE u) /\ UNCHANGED k
        /\ Told(e, IF e.plain = 1 THEN t ELSE u)
        /\ Stray(e, l, vis, "W02")
        /\ IF Empty(vis) THEN TRUE
           ELSE \A W \in {[i \in DOMAIN e.items |-> TextOf(e.items[i])]} :
                \A g \in {IF Empty(in) \/ h = <<>> THEN u.off ELSE BeyondShown(h, in[4], u.off)} :
                \A pl \in {Placement(e, W, in, h, u.off, g, u)} : \A ts \in {Titles(b, vis)} : \A st \in {Sty(e.st)} : \A hl \in {Sty(e.hl)} :
                  Cells2(e, l, vis, LAMBDA x, y :
                            LET O == PutBlock(PutStyle({Old(e)}, st), x, y, b, vis, ts)
                                at == {i \in DOMAIN pl : Contains(pl[i].row, <<x, y>>)} IN
                            IF at = {} THEN O ELSE LET i == CHOOSE i \in at : TRUE IN PutItem(O, x, y, pl[i], W[i + 1], hl), "W02")

Init == l = 1 /\ t = NewList /\ k = NewList
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN /\ Mismatch("W02", l, e.op \o ": " \o e.fail)
                                 /\ IF e.op = "render" THEN Mismatch("W01", l, e.op \o ": " \o e.fail) ELSE TRUE
                                 /\ UNCHANGED <<t, k>>
             ELSE IF e.op = "render" THEN RenderStep(e) ELSE StateStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
