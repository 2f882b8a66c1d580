------------------------------- MODULE Screen -------------------------------
(* A terminal: what the bytes that an application writes make visible (properties S01, S02).                 *)
(* sc = [w, h, c, x, y, pen, cur, odd]: size, cells row by row, cursor position, current attributes, whether  *)
(* the cursor is visible, and whether something was received that an application must not rely on. A cell is  *)
(* [s, st]: its character ("" for the right half of a wide one) and its style [f, b, m]: foreground and        *)
(* background as the SGR parameters that select it (<<>>: default) and the set of attributes.                 *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Pen0 == [f |-> <<>>, b |-> <<>>, m |-> {}]
Garbage == [s |-> "~", st |-> [f |-> <<-1>>, b |-> <<-1>>, m |-> {}]]   \* equal to nothing an application wants
BlankOf(pen) == [s |-> " ", st |-> [f |-> <<>>, b |-> pen.b, m |-> {}]]
Blank == BlankOf(Pen0)

NewScreen(w, h, cell) == [w |-> w, h |-> h, c |-> [i \in 1 .. w * h |-> cell], x |-> 0, y |-> 0, pen |-> Pen0, cur |-> TRUE, odd |-> FALSE]

(* ---- attributes *)
(* modifiers as in Style: 0 bold, 1 dim, 2 italic, 3 underlined, 4 slow blink, 5 rapid blink, 6 reversed, 7 hidden, 8 crossed out *)
OnCode == <<0, 1, 2, 3, 4, 5, 6, 7, 8>>
SgrOff == [k \in {22, 23, 24, 25, 27, 28, 29} |->
            CASE k = 22 -> {0, 1} [] k = 23 -> {2} [] k = 24 -> {3} [] k = 25 -> {4, 5} [] k = 27 -> {6} [] k = 28 -> {7} [] k = 29 -> {8}]
RECURSIVE Sgr(_, _, _)
Sgr(pen, p, i) ==
    IF i > Len(p) THEN pen
    ELSE LET k == p[i] IN
         CASE k = 0 -> Sgr(Pen0, p, i + 1)
           [] k >= 1 /\ k <= 9 -> Sgr([pen EXCEPT !.m = @ \cup {OnCode[k]}], p, i + 1)
           [] k \in DOMAIN SgrOff -> Sgr([pen EXCEPT !.m = @ \ SgrOff[k]], p, i + 1)
           [] k = 39 -> Sgr([pen EXCEPT !.f = <<>>], p, i + 1)
           [] k = 49 -> Sgr([pen EXCEPT !.b = <<>>], p, i + 1)
           [] (k >= 30 /\ k <= 37) \/ (k >= 90 /\ k <= 97) -> Sgr([pen EXCEPT !.f = <<k>>], p, i + 1)
           [] (k >= 40 /\ k <= 47) \/ (k >= 100 /\ k <= 107) -> Sgr([pen EXCEPT !.b = <<k>>], p, i + 1)
           [] k \in {38, 48} /\ i + 2 <= Len(p) /\ p[i + 1] = 5 ->
                LET q == SubSeq(p, i, i + 2) IN Sgr(IF k = 38 THEN [pen EXCEPT !.f = q] ELSE [pen EXCEPT !.b = q], p, i + 3)
           [] k \in {38, 48} /\ i + 4 <= Len(p) /\ p[i + 1] = 2 ->
                LET q == SubSeq(p, i, i + 4) IN Sgr(IF k = 38 THEN [pen EXCEPT !.f = q] ELSE [pen EXCEPT !.b = q], p, i + 5)
           [] OTHER -> Sgr([pen EXCEPT !.m = @ \cup {99}], p, i + 1)    \* not understood

(* ---- printing *)
At(sc, x, y) == y * sc.w + x + 1
(* what stands in column x is about to be overwritten: half of a wide character leaves the other half broken *)
Break(sc, x, y) ==
    LET i == At(sc, x, y) IN
    [sc EXCEPT !.c = IF sc.c[i].s = "" /\ x > 0 THEN [@ EXCEPT ![i] = Garbage, ![i - 1] = Garbage]
                     ELSE IF x + 1 < sc.w /\ sc.c[i].s # "" /\ sc.c[i + 1].s = "" THEN [@ EXCEPT ![i + 1] = Garbage]
                     ELSE @]
PrintAt(sc0, s, w) ==
    IF w \notin {1, 2} \/ w > sc0.w THEN [sc0 EXCEPT !.odd = TRUE]
    ELSE \* the last column was written: the next character goes to the next row
         LET sc == IF sc0.x + w > sc0.w THEN [sc0 EXCEPT !.x = 0, !.y = @ + 1] ELSE sc0 IN
         IF sc.y >= sc.h THEN [sc0 EXCEPT !.odd = TRUE]      \* scrolls
         ELSE LET i == At(sc, sc.x, sc.y)
                  b1 == Break(sc, sc.x, sc.y)
              IN IF w = 1 THEN [b1 EXCEPT !.c[i] = [s |-> s, st |-> sc.pen], !.x = @ + 1]
                 ELSE LET b2 == Break(b1, sc.x + 1, sc.y) IN
                      [b2 EXCEPT !.c[i] = [s |-> s, st |-> sc.pen], !.c[i + 1] = [s |-> "", st |-> sc.pen], !.x = @ + 2]

Min2(a, b) == IF a < b THEN a ELSE b
Erase(sc, P(_)) == [sc EXCEPT !.c = [i \in DOMAIN @ |-> IF P(i) THEN BlankOf(sc.pen) ELSE @[i]]]

Token(sc, t) ==
    CASE t.t = "print" -> PrintAt(sc, t.s, t.w)
      [] t.t = "cup" -> [sc EXCEPT !.x = Min2(t.x, sc.w - 1), !.y = Min2(t.y, sc.h - 1)]
      [] t.t = "sgr" -> [sc EXCEPT !.pen = Sgr(@, t.p, 1)]
      [] t.t = "ed" -> LET here == At(sc, Min2(sc.x, sc.w - 1), sc.y) IN
                       CASE t.n = 2 -> Erase(sc, LAMBDA i : TRUE)
                         [] t.n = 0 -> Erase(sc, LAMBDA i : i >= here)
                         [] t.n = 1 -> Erase(sc, LAMBDA i : i <= here)
                         [] OTHER -> sc
      [] t.t = "el" -> LET here == At(sc, Min2(sc.x, sc.w - 1), sc.y)  row(i) == (i - 1) \div sc.w = sc.y IN
                       CASE t.n = 2 -> Erase(sc, LAMBDA i : row(i))
                         [] t.n = 0 -> Erase(sc, LAMBDA i : row(i) /\ i >= here)
                         [] t.n = 1 -> Erase(sc, LAMBDA i : row(i) /\ i <= here)
                         [] OTHER -> sc
      [] t.t = "mode" /\ t.n = 25 -> [sc EXCEPT !.cur = t.on]
      [] OTHER -> [sc EXCEPT !.odd = TRUE]

Tokens(sc, ts) == FoldLeft(Token, sc, ts)

(* ---- what a frame asks for: cells [s, w, st] of the area <<x, y, w, h>>; a cell covered by the wide character *)
(* left of it is not seen *)
Wanted(area, fr, i) ==
    IF (i - 1) % area[3] > 0 /\ fr[i - 1].w = 2 THEN [s |-> "", st |-> fr[i - 1].st] ELSE [s |-> fr[i].s, st |-> fr[i].st]
ScreenIdx(sc, area, i) == At(sc, area[1] + ((i - 1) % area[3]), area[2] + ((i - 1) \div area[3]))
InArea(sc, area, j) ==
    LET x == (j - 1) % sc.w  y == (j - 1) \div sc.w IN
    x >= area[1] /\ x < area[1] + area[3] /\ y >= area[2] /\ y < area[2] + area[4]

(* indices of the area at which the screen differs from the frame, by character and by style *)
WrongChar(sc, area, fr) == {i \in DOMAIN fr : sc.c[ScreenIdx(sc, area, i)].s # Wanted(area, fr, i).s}
WrongStyle(sc, area, fr) == {i \in DOMAIN fr : sc.c[ScreenIdx(sc, area, i)].st # Wanted(area, fr, i).st}
Outside(old, new, area) == \A j \in DOMAIN new.c : InArea(new, area, j) \/ new.c[j] = old.c[j]
=============================================================================
