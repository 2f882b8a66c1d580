------------------------------ MODULE Control ------------------------------
(* A terminal under control of an application (property S05): two screens, the cursor, bracketed paste and the line    *)
(* settings, and what each operation of the terminal makes of them - that and nothing else.                            *)
(* t = [s, other, alt, sx, sy, paste, line, was]: the visible screen, the cells of the other one, whether the          *)
(* alternate screen is on, the cursor saved when it was entered, bracketed paste, the line settings (-1: raw, else the  *)
(* number of the user's settings) and those found when raw mode was entered (-2: never).                               *)
EXTENDS Screen

NewControl(w, h, cell, line) ==
    [s |-> NewScreen(w, h, cell), other |-> [i \in 1 .. w * h |-> Blank], alt |-> FALSE, sx |-> 0, sy |-> 0, paste |-> FALSE, line |-> line, was |-> -2]

(* ---- what the terminal makes of a token *)
Clean(t) == [t EXCEPT !.s.c = [i \in DOMAIN @ |-> Blank]]
TokenT(t, k) ==
    IF k.t = "mode" /\ k.n = 1049
    THEN IF k.on
         THEN LET u == IF t.alt THEN t ELSE [t EXCEPT !.other = t.s.c, !.alt = TRUE] IN [Clean(u) EXCEPT !.sx = t.s.x, !.sy = t.s.y]
         ELSE [t EXCEPT !.s.c = IF t.alt THEN t.other ELSE @, !.s.x = t.sx, !.s.y = t.sy, !.alt = FALSE, !.other = [i \in DOMAIN @ |-> Blank]]
    ELSE IF k.t = "mode" /\ k.n = 2004 THEN [t EXCEPT !.paste = k.on]
    ELSE [t EXCEPT !.s = Token(@, k)]
TokensT(t, ks) == FoldLeft(TokenT, t, ks)

(* ---- what an operation is for. o = [op, x, y, on]; on: whether it switches on. here: the cell the cursor is on *)
Here(t) == At(t.s, Min2(t.s.x, t.s.w - 1), t.s.y)
Row(t) == {i \in DOMAIN t.s.c : (i - 1) \div t.s.w = t.s.y}
Cleared(t, S) == [t EXCEPT !.s.c = [i \in DOMAIN @ |-> IF i \in S THEN Blank ELSE @[i]]]
Effect(t, o) ==
    CASE o.op = "pos" -> [t EXCEPT !.s.x = Min2(o.x, t.s.w - 1), !.s.y = Min2(o.y, t.s.h - 1)]
      [] o.op = "cursor" -> [t EXCEPT !.s.cur = o.on]
      [] o.op = "paste" -> [t EXCEPT !.paste = o.on]
      [] o.op = "alt" /\ o.on -> IF t.alt THEN Clean(t) ELSE [Clean(t) EXCEPT !.alt = TRUE, !.other = t.s.c]
      [] o.op = "alt" -> IF t.alt THEN [t EXCEPT !.alt = FALSE, !.s.c = t.other] ELSE t
      [] o.op = "all" -> Cleared(t, DOMAIN t.s.c)
      [] o.op = "after" -> Cleared(t, {i \in DOMAIN t.s.c : i >= Here(t)})
      [] o.op = "before" -> Cleared(t, {i \in DOMAIN t.s.c : i <= Here(t)})
      [] o.op = "line" -> Cleared(t, Row(t))
      [] o.op = "until" -> Cleared(t, {i \in Row(t) : i >= Here(t)})
      [] o.op = "raw" /\ o.on -> [t EXCEPT !.was = t.line, !.line = -1]
      [] o.op = "raw" -> IF t.was = -2 THEN t ELSE [t EXCEPT !.line = t.was]
      [] OTHER -> t

(* what can be seen of the terminal; where the cursor stands after switching screens is up to the terminal *)
Cells(t) == <<t.s.c, t.alt, IF t.alt THEN t.other ELSE <<>>>>
Spot(t) == <<Min2(t.s.x, t.s.w - 1), t.s.y>>
Modes(t) == <<t.s.cur, t.paste>>
Same(a, b, o) == Cells(a) = Cells(b) /\ Modes(a) = Modes(b) /\ a.s.pen = b.s.pen /\ a.line = b.line /\ (o.op = "alt" \/ Spot(a) = Spot(b))
=============================================================================
