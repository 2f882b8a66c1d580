------------------------------- MODULE ListMC -------------------------------
(* All histories of moving the selection and the offset, and of renderings with items that come, go and change their heights.                *)
EXTENDS List
CONSTANTS MAXN, MAXH, HS, BUG
VARIABLES t, r
Heights == UNION {[1 .. n -> 0 .. MAXH] : n \in 0 .. MAXN}
Init == t = NewList /\ r = <<>>
Moved(u) == t' = u /\ r' = <<>>
Move ==
    \/ Moved(NextItem(t))
    \/ Moved(PrevItem(t))
    \/ Moved(Down(t, 3)) \/ Moved(Down(t, -3)) \/ Moved(Select(t, Inf)) \/ Moved(Select(t, 0)) \/ Moved(NewList)
    \/ \E k \in 0 .. MAXN + 1 : Moved(SetOff(t, k))
Bound == t.sel <= MAXN + 3 \/ t.sel = Inf
Shown(h, H, u, p) == IF BUG = "lazy" /\ u.sel # None /\ u.off > t.off THEN Max(BeyondShown(h, H, u.off) - 1, u.sel + 1) ELSE BeyondShown(h, H, u.off)
Render == \E h \in Heights, H \in HS, p \in 0 .. 2 : \E u \in {Settled(h, H, t, IF BUG = "pad" THEN 0 ELSE p)} :
    t' = u /\ r' = [h |-> h, H |-> H, p |-> p, old |-> t, to |-> IF h = <<>> THEN 0 ELSE Shown(h, H, u, p)]
Next == (Bound /\ Move) \/ (r = <<>> /\ Render)
Spec == Init /\ [][Next]_<<t, r>>

Seen == IF r = <<>> THEN {} ELSE t.off .. r.to - 1
N == Len(r.h)
Within == r # <<>> => IF N = 0 THEN t.sel = None ELSE t.sel = None \/ t.sel \in 0 .. N - 1
Kept == r # <<>> /\ N > 0 => (t.sel = None <=> r.old.sel = None) /\ (r.old.sel \in 0 .. N - 1 => t.sel = r.old.sel)
FitIn == r # <<>> /\ N > 0 => HeightOf(r.h, t.off, r.to - 1) <= r.H
AllThatFit == r # <<>> /\ N > 0 => r.to = N \/ HeightOf(r.h, t.off, r.to) > r.H
SelectedSeen == r # <<>> /\ t.sel # None => r.h[t.sel + 1] > r.H \/ t.sel \in Seen
(* all padding that fits, on both sides *)
Padded == r # <<>> /\ t.sel # None => \A p \in 0 .. r.p : \A a \in {Around(t.sel, p, N)} : HeightOf(r.h, a[1], a[2]) <= r.H => a[1] .. a[2] \subseteq Seen
(* it does not move without need *)
StaysPut == r # <<>> /\ N > 0 /\ t.off # Min(r.old.off, N - 1) =>
    t.sel # None /\ \A o \in {Min(r.old.off, N - 1)} : ~(Around(t.sel, PadThatFits(r.h, r.H, t.sel, r.p), N)[1] >= o /\ Around(t.sel, PadThatFits(r.h, r.H, t.sel, r.p), N)[2] < BeyondShown(r.h, r.H, o))
Again == r # <<>> => Settled(r.h, r.H, t, r.p) = t

(* a movement goes as far as asked and stops at the ends *)
Goes == [][r' = <<>> => \/ t' = NewList
                        \/ t'.off # t.off \/ t'.sel = t.sel
                        \/ t'.sel \in {0, Inf}
                        \/ t'.sel - Sel0(t) \in {-3, -1, 1, 3}
                        \/ t.sel = None /\ t'.sel = 0]_<<t, r>>
Saturates == r = <<>> => NextItem(Select(t, Inf)).sel = Inf /\ Down(Select(t, Inf), 3).sel = Inf /\ PrevItem(Select(t, 0)).sel = 0 /\ Down(Select(t, 1), -3).sel = 0
=============================================================================
