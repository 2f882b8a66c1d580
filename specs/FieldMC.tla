------------------------------- MODULE FieldMC -------------------------------
(* All histories of edits and renderings of a short input. It is compared with an independent account of the same text: what is before the *)
(* cursor and what is after it. The window of every rendering contains the cursor, fits, is as long as possible, and has moved no more than  *)
(* needed; the text that comes out of a history of typing and erasing at the end is what a plain list would hold.                             *)
EXTENDS Field, TLC
CONSTANTS MAXLEN, KS, BUG
VARIABLES t, bef, aft, off, win
vars == <<t, bef, aft, off, win>>
G(s, w) == [s |-> s, w |-> w]
Keys == {<<G("a", 1)>>, <<G(" ", 1)>>, <<G("W", 2)>>, <<G("b", 1), G("W", 2)>>}
Init == t = New /\ bef = <<>> /\ aft = <<>> /\ off = 0 /\ win = <<>>
Rest == off' = off /\ win' = <<>>
Do(t2, b2, a2) == t' = t2 /\ bef' = b2 /\ aft' = a2 /\ Rest
RECURSIVE DropWhile(_, _)
DropWhile(q, blank) == IF q = <<>> THEN q ELSE IF (q[Len(q)].s \in White) = blank THEN DropWhile(First(q, Len(q) - 1), blank) ELSE q
Edit ==
    \/ \E k \in Keys : Len(t.gs) + Len(k) <= MAXLEN /\ Do(Type(t, k), bef \o k, aft)
    \/ Do(IF BUG = "free" THEN [t EXCEPT !.c = @ - 1] ELSE Move(t, -1), First(bef, Max(0, Len(bef) - 1)), (IF bef = <<>> THEN <<>> ELSE <<bef[Len(bef)]>>) \o aft)
    \/ Do(Move(t, 1), bef \o (IF aft = <<>> THEN <<>> ELSE <<aft[1]>>), From(aft, Min(1, Len(aft))))
    \/ Do(ToBegin(t), <<>>, bef \o aft)
    \/ Do(ToEnd(t), bef \o aft, <<>>)
    \/ Do(Back(t), First(bef, Max(0, Len(bef) - 1)), aft)
    \/ Do(IF BUG = "word" /\ t.c > 0 THEN Erase(t, Run(First(t.gs, t.c), FALSE)) ELSE WordBack(t), DropWhile(DropWhile(bef, TRUE), FALSE), aft)
    \/ Do(Clear, <<>>, <<>>)
Render == \E K \in KS : \E w \in (IF BUG = "still" THEN {<<Min(off, t.c), LastOf(t, Min(off, t.c), K)>>} ELSE Windows(t, off, K)) :
    off' = w[1] /\ win' = <<K, w[1], w[2], off>> /\ UNCHANGED <<t, bef, aft>>
Next == Edit \/ Render
Spec == Init /\ [][Next]_vars

InRange == t.c \in 0 .. Len(t.gs)
SameText == t.gs = bef \o aft /\ t.c = Len(bef)
Fresh == win # <<>>                               \* just rendered
CursorIn == Fresh => win[2] <= t.c /\ t.c <= win[3] /\ (t.c < Len(t.gs) /\ t.gs[t.c + 1].w <= win[1] => t.c < win[3])
FitsIn == Fresh => W(SubSeq(t.gs, win[2] + 1, win[3])) <= win[1]
AsLong == Fresh => win[3] = Len(t.gs) \/ W(SubSeq(t.gs, win[2] + 1, win[3] + 1)) > win[1]
(* it stays where it is if the cursor is well inside, and everything is shown if it all fits and it has never moved *)
NoFurther == Fresh /\ win[4] < t.c /\ W(SubSeq(t.gs, win[4] + 1, Seen(t))) <= win[1] => win[2] = win[4]
AllShown == Fresh /\ win[4] = 0 /\ W(t.gs) <= win[1] => win[2] = 0 /\ win[3] = Len(t.gs)
=============================================================================
