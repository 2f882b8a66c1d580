------------------------------- MODULE Scroll -------------------------------
(* Scrollbars (property W04). A state is [n, pos, v]: how much there is, where it is, and how much of it is visible at a time (0: as much *)
(* as the bar is long).                                                                                                                  *)
EXTENDS Simple
LastOf(n) == Max(0, n - 1)
NewState(n) == [n |-> n, pos |-> 0, v |-> 0]
At(t, p) == [t EXCEPT !.pos = Max(0, Min(p, LastOf(t.n)))]
Next1(t) == At(t, t.pos + 1)
Prev1(t) == At(t, t.pos - 1)

(* ---- the bar: a track of T cells between the symbols at its ends, of which there are none for a horizontal one. The thumb covers the part  *)
(* of the track that corresponds to what is visible, as if the last line could be scrolled to the top; at least one cell.                    *)
Thumbs(t, v, T) ==                                              \* <<cells before it, its length>>
    LET whole == LastOf(t.n) + v IN
    {<<Min(T - 1, s), Max(1, Min(T, e) - Min(T - 1, s))>> : s \in Rounded(t.pos * T, whole), e \in Rounded((t.pos + v) * T, whole)}
(* the same for a content so large that a row of it is nothing; p and v in eighths of it. Halves may go either way. *)
VastThumbs(p, v, T) ==
    {<<Min(T - 1, s), Max(1, Min(T, e) - Min(T - 1, s))>> : s \in Rounded(p * T, 8 + v), e \in Rounded((p + v) * T, 8 + v)}
Vertical(o) == o \in {"right", "left"}
Ends2(o) == IF Vertical(o) THEN 2 ELSE 0
Visible2(t, len) == IF t.v = 0 THEN len ELSE t.v
LineOfBar(o, a) ==                                              \* the cells of the bar in area a
    CASE o = "right" -> <<Right(a) - 1, a[2], 1, a[4]>>
      [] o = "left" -> <<a[1], a[2], 1, a[4]>>
      [] o = "bottom" -> <<a[1], Bottom(a) - 1, a[3], 1>>
      [] o = "top" -> <<a[1], a[2], a[3], 1>>
LenOf(o, a) == IF Vertical(o) THEN a[4] ELSE a[3]
Glyphs(o) == IF Vertical(o) THEN [track |-> "<2551>", begin |-> "<25b2>", end |-> "<25bc>"] ELSE [track |-> "<2550>", begin |-> "", end |-> ""]
(* what cell k (0-based) of a bar of length len shows with the thumb th *)
Glyph(o, len, th, k) ==
    LET g == Glyphs(o)  b == Ends2(o) \div 2 IN
    IF k < b THEN g.begin ELSE IF k >= len - b THEN g.end
    ELSE IF k - b >= th[1] /\ k - b < th[1] + th[2] THEN Full ELSE g.track
(* the rest of the area *)
InnerOfBar(o, a) ==
    CASE o = "right" -> <<a[1], a[2], Max(0, a[3] - 1), a[4]>>
      [] o = "left" -> <<a[1] + 1, a[2], Max(0, a[3] - 1), a[4]>>
      [] o = "bottom" -> <<a[1], a[2], a[3], Max(0, a[4] - 1)>>
      [] o = "top" -> <<a[1], a[2] + 1, a[3], Max(0, a[4] - 1)>>
=============================================================================
