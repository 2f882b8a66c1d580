-------------------------------- MODULE List --------------------------------
(* Lists (property W02). A state is [sel, off]: the selection, None or 0, 1, ..., and the first item shown. How many items there are is only   *)
(* known when the list is rendered: until then the selection may be beyond the end (Inf if it was sent there).                                *)
EXTENDS Simple
None == -1
Inf == 1000000000
NewList == [sel |-> None, off |-> 0]
Select(t, k) == [t EXCEPT !.sel = Max(0, Min(k, Inf))]
Sel0(t) == Max(0, t.sel)
NextItem(t) == Select(t, t.sel + 1)
PrevItem(t) == IF t.sel = None THEN Select(t, Inf) ELSE Select(t, t.sel - 1)
Down(t, k) == Select(t, Sel0(t) + k)
SetOff(t, k) == [t EXCEPT !.off = Max(0, k)]

(* ---- which items are shown, of items of heights h in H rows: the whole ones from the offset on that fit. The offset moves no further than  *)
(* needed to show the selected item with as many of the pad items before and after it as fit together with it.                              *)
RECURSIVE SumTo(_, _)
SumTo(h, k) == IF k = 0 THEN 0 ELSE h[k] + SumTo(h, k - 1)
HeightOf(h, i, j) == SumTo(h, j + 1) - SumTo(h, i)              \* of items i to j, counted from 0
Around(sel, p, n) == <<Max(0, sel - p), Min(n - 1, sel + p)>>
PadThatFits(h, H, sel, pad) ==
    LET ok == {p \in 0 .. pad : LET r == Around(sel, p, Len(h)) IN HeightOf(h, r[1], r[2]) <= H} IN
    IF ok = {} THEN 0 ELSE CHOOSE p \in ok : \A q \in ok : q <= p
FirstShown(h, H, t, pad) ==
    LET n == Len(h)  off == Min(t.off, n - 1) IN
    IF t.sel = None THEN off
    ELSE LET r == Around(t.sel, PadThatFits(h, H, t.sel, pad), n) IN
         IF r[1] < off THEN r[1]
         ELSE LET ok == {f \in off .. t.sel : HeightOf(h, f, r[2]) <= H} IN IF ok = {} THEN t.sel ELSE CHOOSE f \in ok : \A g \in ok : f <= g
BeyondShown(h, H, f) ==                                        \* the first one that is not shown any more
    LET no == {k \in f .. Len(h) - 1 : HeightOf(h, f, k) > H} IN IF no = {} THEN Len(h) ELSE CHOOSE k \in no : \A m \in no : k <= m
(* the state after rendering: the selection is within the items *)
Settled(h, H, t, pad) ==
    IF h = <<>> THEN NewList
    ELSE LET u == [t EXCEPT !.sel = IF @ = None THEN None ELSE Min(@, Len(h) - 1)] IN [u EXCEPT !.off = FirstShown(h, H, u, pad)]
=============================================================================
