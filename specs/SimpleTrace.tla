---------------------------- MODULE SimpleTrace ----------------------------
EXTENDS Simple
VARIABLE l

(* the common frame of gauges and tabs: style, block, and inside of the visible area *)
Framed(e, vis, st, b, ts, x, y) == PutBlock(PutStyle({Old(e)}, st), x, y, b, vis, ts)
GaugeStep(e) ==
    \A g \in {[n |-> e.n, d |-> e.d, uni |-> e.uni = 1, label |-> [i \in DOMAIN e.label |-> Span(e.label[i])], st |-> Sty(e.st), gs |-> Sty(e.gs)]} :
    \A b \in {BlockIn(e.blk)} : \A vis \in {Inter(e.area, e.barea)} : \A in \in {InnerOf(b, vis)} :
    \A ts \in {IF Empty(vis) THEN <<>> ELSE Titles(b, vis)} : \A lb \in {Labels(g)} :
        /\ Stray(e, l, vis, "W06")
        /\ IF Empty(vis) THEN TRUE
           ELSE Cells2(e, l, vis, LAMBDA x, y : PutGauge(Framed(e, vis, g.st, b, ts, x, y), x, y, in, g, lb), "W06")
(* ratios outside of 0 to 1 are rejected, by a panic, others accepted *)
RatioStep(e) == Chk("W06", l, (e.fail # "") = (e.ok = 0), "ratio " \o e.ratio \o ": " \o e.fail)

TabsStep(e) ==
    \A t \in {[titles |-> [i \in DOMAIN e.titles |-> Visible(LineChars(LineOf(e.titles[i]), NoStyle, FALSE))], sel |-> e.sel, st |-> Sty(e.st), hl |-> Sty(e.hl),
               padl |-> Visible(LineChars(LineOf(e.padl), NoStyle, FALSE)), padr |-> Visible(LineChars(LineOf(e.padr), NoStyle, FALSE)),
               div |-> Visible(Chars(Span(e.div).gs, Span(e.div).st, FALSE))]} :
    \A b \in {BlockIn(e.blk)} : \A vis \in {Inter(e.area, e.barea)} : \A in \in {InnerOf(b, vis)} :
    \A ts \in {IF Empty(vis) THEN <<>> ELSE Titles(b, vis)} : \A p \in {TabPieces(t, in[3])} :
        /\ Stray(e, l, vis, "W06")
        /\ IF Empty(vis) THEN TRUE
           ELSE Cells2(e, l, vis, LAMBDA x, y : PutTabs(Framed(e, vis, t.st, b, ts, x, y), x, y, in, t, p), "W06")

FillStep(e) ==
    \A vis \in {Inter(e.area, e.barea)} :
        /\ Stray(e, l, vis, "W06")
        /\ IF Empty(vis) THEN TRUE
           ELSE Cells2(e, l, vis, LAMBDA x, y : {IF e.op = "clear" THEN BlankCell ELSE [Styled(BlankCell, Sty(e.st)) EXCEPT !.s = e.sym]}, "W06")

(* a popup: the rectangle that is not left alone. Where padding is given only that it stays within is checked; e.inner is what the *)
(* popup says its inside is.                                                                                                       *)
Touched(e, vis) == {p \in Xs(vis) \X Ys(vis) : e.cells[PIdx(e.barea, p[1], p[2])] # e.old}
Hull(S) ==
    IF S = {} THEN <<0, 0, 0, 0>>
    ELSE LET x1 == CHOOSE v \in {p[1] : p \in S} : \A p \in S : v <= p[1]    x2 == CHOOSE v \in {p[1] : p \in S} : \A p \in S : v >= p[1]
             y1 == CHOOSE v \in {p[2] : p \in S} : \A p \in S : v <= p[2]    y2 == CHOOSE v \in {p[2] : p \in S} : \A p \in S : v >= p[2]
         IN  <<x1, y1, x2 - x1 + 1, y2 - y1 + 1>>
PopupStep(e) ==
    \A vis \in {Inter(e.area, e.barea)} : \A p \in {[width |-> e.width, height |-> e.height, h |-> e.h, v |-> e.v, st |-> Sty(e.st)]} :
    \A b \in {BlockIn(e.blk)} : \A R \in {Hull(Touched(e, vis))} :
        /\ Stray(e, l, vis, "W06")
        /\ IF e.pad = <<0, 0, 0, 0>>
           THEN Chk("W06", l, IF R = <<0, 0, 0, 0>> THEN Empty(vis) \/ \E r \in PopupRects(p, vis) : Empty(r) ELSE R \in PopupRects(p, vis), "popup painted " \o ToString(R))
           ELSE Chk("W06", l, R = <<0, 0, 0, 0>> \/ Inter(R, Inner(vis, e.pad)) = R, "popup painted " \o ToString(R) \o " of " \o ToString(Inner(vis, e.pad)))
        /\ IF R = <<0, 0, 0, 0>> THEN TRUE
           ELSE \A ts \in {Titles(b, R)} :
                  /\ Cells2(e, l, R, LAMBDA x, y : PutBlock(PutStyle({BlankCell}, p.st), x, y, b, R, ts), "W06")
                  /\ IF vis # e.area THEN TRUE
                     ELSE \A in \in {InnerOf(b, R)} :
                        IF Empty(in) THEN Chk("W06", l, e.inner[3] * e.inner[4] = 0, "inside of the popup " \o ToString(e.inner) \o " is not empty")
                        ELSE ChkEq("W06", l, e.inner, in, "inside of the popup")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.op = "ratio" THEN RatioStep(e)
             ELSE IF e.fail # "" THEN Mismatch("W01", l, e.op \o ": " \o e.fail) /\ Mismatch("W06", l, e.op \o ": " \o e.fail)
             ELSE CASE e.op = "gauge" -> GaugeStep(e)
                    [] e.op = "tabs" -> TabsStep(e)
                    [] e.op \in {"fill", "clear"} -> FillStep(e)
                    [] e.op = "popup" -> PopupStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
