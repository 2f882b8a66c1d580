-------------------------------- MODULE Field --------------------------------
(* The text input (property W03): a sequence of graphemes gs ([s, w]) with a cursor c, 0 <= c <= Len(gs), which stands before the grapheme *)
(* that gs[c + 1] is; and, of the rendering, the window of gs that is shown: after the first f graphemes, up to the l-th one.              *)
EXTENDS Text

New == [gs |-> <<>>, c |-> 0]
First(q, n) == SubSeq(q, 1, n)
From(q, n) == SubSeq(q, n + 1, Len(q))
Range01(n, hi) == IF n < 0 THEN 0 ELSE IF n > hi THEN hi ELSE n

Type(t, gs) == [gs |-> First(t.gs, t.c) \o gs \o From(t.gs, t.c), c |-> t.c + Len(gs)]
Move(t, d) == [t EXCEPT !.c = Range01(@ + d, Len(t.gs))]
ToBegin(t) == [t EXCEPT !.c = 0]
ToEnd(t) == [t EXCEPT !.c = Len(t.gs)]
(* removes the k graphemes before the cursor *)
Erase(t, k) == [gs |-> First(t.gs, t.c - k) \o From(t.gs, t.c), c |-> t.c - k]
Back(t) == Erase(t, IF t.c = 0 THEN 0 ELSE 1)
(* the blanks before the cursor, and the word before these *)
White == {" ", "<3000>", "<2003>", "<200b>", "<9>", "<a>", "<d>", "<d><a>"}
Run(q, blank) == LET no == {i \in DOMAIN q : (q[i].s \in White) # blank} IN IF no = {} THEN Len(q) ELSE Len(q) - (CHOOSE i \in no : \A j \in no : j <= i)
WordBack(t) == LET q == First(t.gs, t.c)  b == Run(q, TRUE) IN Erase(t, b + Run(First(q, Len(q) - b), FALSE))
Clear == New

(* ---- the window, from the one before, which began after off graphemes, for a text of at most K columns. The grapheme at the cursor is in *)
(* it, and where both have room the one before the cursor may be kept in it too; it moves no further than that needs, and holds as many as fit. *)
W(q) == Fold(LAMBDA n, g : n + (IF g.w < 0 THEN 0 ELSE g.w), 0, q)
Seen(t) == IF t.c < Len(t.gs) THEN t.c + 1 ELSE t.c                \* graphemes up to the one at the cursor
RoomFor(t, f, K) == W(SubSeq(t.gs, f + 1, Seen(t))) <= K
FirstOf(t, from, K) == CHOOSE f \in from .. t.c : (f = t.c \/ RoomFor(t, f, K)) /\ \A g \in from .. f - 1 : ~RoomFor(t, g, K)
LastOf(t, f, K) ==
    LET full == {l \in f .. Len(t.gs) - 1 : W(SubSeq(t.gs, f + 1, l + 1)) > K} IN
    IF full = {} THEN Len(t.gs) ELSE CHOOSE l \in full : \A k \in full : l <= k
Starts0(t, off) == {Min(off, t.c), Min(off, Max(0, t.c - 1))}
Windows(t, off, K) == {<<f, LastOf(t, f, K)>> : f \in {FirstOf(t, s, K) : s \in Starts0(t, off)}}
=============================================================================
