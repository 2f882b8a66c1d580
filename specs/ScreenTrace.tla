---------------------------- MODULE ScreenTrace ----------------------------
EXTENDS Screen, TraceKit
VARIABLES l, sc, prev     \* prev: the last frame while the terminal still shows it, else <<>>

ModSet == [k \in 0 .. 511 |-> {i \in 0 .. 8 : (k \div (2 ^ i)) % 2 = 1}]
(* a cell of a frame: [symbol, width, foreground, background, modifiers] *)
CellOf(j) == [s |-> j[1], w |-> j[2], st |-> [f |-> j[3], b |-> j[4], m |-> ModSet[j[5]]]]
FrameOf(f) == [i \in DOMAIN f |-> CellOf(f[i])]

First(S) == CHOOSE i \in S : \A j \in S : i <= j
Show(sc1, area, fr, i) ==
    "cell " \o ToString(i) \o " shows " \o ToString(sc1.c[ScreenIdx(sc1, area, i)]) \o " want " \o ToString(Wanted(area, fr, i))
Prints(ts) == \E i \in DOMAIN ts : ts[i].t = "print"

BlankFr(area) == [i \in 1 .. area[3] * area[4] |-> [s |-> " ", w |-> 1, st |-> Pen0]]

Shown(what, n, area, fr) ==
    /\ \A S \in {WrongChar(n, area, fr)} : Chk("S01", l, S = {}, what \o ": " \o Show(n, area, fr, First(S)))
    /\ \A S \in {WrongStyle(n, area, fr) \ WrongChar(n, area, fr)} :
          /\ Chk("S01", l, S = {}, what \o ": " \o Show(n, area, fr, First(S)))
          /\ Chk("S02", l, S = {}, what \o ": " \o Show(n, area, fr, First(S)))
    /\ Chk("S01", l, Outside(sc, n, area), what \o ": a cell outside of the area is touched")
    /\ Chk("S02", l, n.pen = Pen0, what \o ": attributes leak into what comes next: " \o ToString(n.pen))
    /\ Chk("S01", l, ~n.odd, what \o ": a sequence is sent that means nothing here, or the screen scrolls")

(* op "draw": frame fr into the area; "clear": of the area, scribbled over before if junk = 1;               *)
(* "resize": to a terminal of w x h with unknown contents *)
Step(e) ==
    CASE e.op = "start" ->
            /\ sc' = LET s == NewScreen(e.w, e.h, Garbage) IN
                     [s EXCEPT !.c = [j \in DOMAIN @ |-> IF InArea(s, e.area, j) THEN Blank ELSE Garbage]]
            /\ prev' = <<>>
      [] e.op = "draw" /\ Len(e.fr) # e.area[3] * e.area[4] ->
            /\ Mismatch("S01", l, "the frame has " \o ToString(Len(e.fr)) \o " cells for an area of " \o ToString(e.area))
            /\ sc' = Tokens(sc, e.ts) /\ prev' = <<>>
      [] e.op = "draw" ->
            \E fr \in {FrameOf(e.fr)} : \E n \in {Tokens(sc, e.ts)} :
                /\ Chk("S01", l, e.blank = 1, "the frame does not start out blank")
                /\ Shown("draw", n, e.area, fr)
                /\ Chk("S01", l, ~n.cur, "draw: the cursor is visible")
                /\ Chk("S01", l, e.same = 0 \/ fr # prev \/ ~Prints(e.ts), "drawing the same frame again sends cells")
                /\ sc' = n /\ prev' = fr
      [] e.op = "broken" ->      \* nothing is known of what it shows, the next drawing has to put that right
            sc' = Tokens(sc, e.ts) /\ prev' = <<>>
      [] e.op \in {"clear", "resize"} ->
            \E old \in {IF e.op = "resize" THEN [NewScreen(e.w, e.h, Garbage) EXCEPT !.cur = sc.cur, !.pen = sc.pen]
                        ELSE IF e.junk = 1 THEN [sc EXCEPT !.c = [j \in DOMAIN @ |-> Garbage]] ELSE sc} :
            \E n \in {Tokens(old, e.ts)} :
                \* what is in the area afterwards shows at the next drawing; the rest must not be touched
                /\ Chk("S01", l, Outside(old, n, e.area), e.op \o ": a cell outside of the area is touched")
                /\ Chk("S02", l, n.pen = Pen0, e.op \o ": attributes leak into what comes next")
                /\ sc' = n /\ prev' = <<>>

Init == l = 1 /\ sc = NewScreen(0, 0, Blank) /\ prev = <<>>
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN /\ Mismatch("S01", l, e.op \o ": " \o e.fail) /\ Mismatch("S02", l, e.op \o ": " \o e.fail)
                                 /\ sc' = sc /\ prev' = <<>>
             ELSE Step(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, sc, prev>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
