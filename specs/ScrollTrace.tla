----------------------------- MODULE ScrollTrace -----------------------------
EXTENDS Scroll
VARIABLES l, t
vars == <<l, t>>
After(e) ==
    CASE e.op = "new" -> NewState(e.n)
      [] e.op \in {"next", "fwd"} -> Next1(t)
      [] e.op \in {"prev", "bwd"} -> Prev1(t)
      [] e.op = "first" -> At(t, 0)
      [] e.op = "last" -> At(t, t.n)
      [] e.op = "set" -> At(t, e.n)
      [] e.op = "view" -> [t EXCEPT !.v = e.n]
Told(e, u) ==
    /\ ChkEq("W04", l, e.pos, u.pos, e.op \o ": position of " \o ToString(u.n))
    /\ Chk("W04", l, e.ratio = (IF u.n = 0 THEN 0 ELSE u.pos), e.op \o ": ratio times length is " \o ToString(e.ratio) \o " at " \o ToString(u.pos))
StateStep(e) == \E u \in {After(e)} : t' = u /\ Told(e, u)
RenderStep(e) ==
    /\ t' = t
    /\ Told(e, t)
    /\ \A vis \in {Inter(e.area, e.barea)} : \A a \in {LineOfBar(e.o, vis)} : \A len \in {LenOf(e.o, vis)} : \A T \in {len - Ends2(e.o)} :
        /\ Stray(e, l, vis, "W04")
        /\ IF Empty(vis) THEN TRUE
           ELSE IF t.n = 0 \/ T < 1 THEN Cells2(e, l, vis, LAMBDA x, y : {Old(e)}, "W04")
           ELSE /\ Chk("W04", l, \A p \in Xs(vis) \X Ys(vis) : Contains(a, p) \/ Now(e, p[1], p[2]) = Old(e), "render " \o e.o \o ": painted beside the bar")
                /\ Chk("W04", l, \E th \in Thumbs(t, Visible2(t, len), T) : \A p \in Xs(a) \X Ys(a) :
                            Now(e, p[1], p[2]) = [Old(e) EXCEPT !.s = Glyph(e.o, len, th, (p[1] - a[1]) + (p[2] - a[2]))],
                       "render " \o e.o \o ": the bar shows " \o ToString([p \in Xs(a) \X Ys(a) |-> Sym(e, p[1], p[2])]) \o " for " \o ToString(t))
(* more rows than the bar has any use for: where the thumb is only depends on what part of them precedes and is visible; e.p and e.w are eighths *)
VastStep(e) ==
    /\ t' = t
    /\ \A a \in {LineOfBar(e.o, e.area)} : \A len \in {LenOf(e.o, e.area)} : \A T \in {len - Ends2(e.o)} :
         Chk("W04", l, \E th \in VastThumbs(e.p, e.w, T) : \A p \in Xs(a) \X Ys(a) :
                         Now(e, p[1], p[2]) = [Old(e) EXCEPT !.s = Glyph(e.o, len, th, (p[1] - a[1]) + (p[2] - a[2]))],
             "render " \o e.o \o ": the bar shows " \o ToString([p \in Xs(a) \X Ys(a) |-> Sym(e, p[1], p[2])]) \o " at " \o ToString(e.p) \o "/8 of a vast content")
InnerStep(e) ==
    /\ t' = t
    /\ \A w \in {InnerOfBar(e.o, e.area)} : IF Empty(e.area) \/ Empty(w) THEN Chk("W04", l, Empty(e.inner), "inside of " \o ToString(e.area) \o " beside the bar is " \o ToString(e.inner))
       ELSE ChkEq("W04", l, e.inner, w, "inside of " \o ToString(e.area) \o " beside the bar " \o e.o)
Init == l = 1 /\ t = NewState(0)
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN /\ Mismatch("W04", l, e.op \o ": " \o e.fail)
                                 /\ IF e.op = "render" THEN Mismatch("W01", l, e.op \o ": " \o e.fail) ELSE TRUE
                                 /\ UNCHANGED t
             ELSE CASE e.op = "render" -> RenderStep(e)
                    [] e.op = "vast" -> VastStep(e)
                    [] e.op = "inner" -> InnerStep(e)
                    [] OTHER -> StateStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
