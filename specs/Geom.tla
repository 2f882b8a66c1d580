-------------------------------- MODULE Geom --------------------------------
(* Rectangles <<x, y, width, height>> as sets of cells (property G01).       *)
EXTENDS Integers, Sequences, FiniteSets

Left(r) == r[1]      Top(r) == r[2]
Right(r) == r[1] + r[3]   Bottom(r) == r[2] + r[4]

(* The meaning of a rectangle. *)
Cells(r) == (Left(r) .. (Right(r) - 1)) \X (Top(r) .. (Bottom(r) - 1))
Empty(r) == r[3] = 0 \/ r[4] = 0
NonNeg(r) == r[3] >= 0 /\ r[4] >= 0
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* Closed forms; GeomMC checks them against the meaning. *)
SameCells(r, s) == NonNeg(r) /\ NonNeg(s) /\ ((Empty(r) /\ Empty(s)) \/ r = s)
Contains(r, p) == p[1] >= Left(r) /\ p[1] < Right(r) /\ p[2] >= Top(r) /\ p[2] < Bottom(r)
Inter(r, s) ==
    LET x1 == Max(Left(r), Left(s))     y1 == Max(Top(r), Top(s))
        x2 == Min(Right(r), Right(s))   y2 == Min(Bottom(r), Bottom(s))
    IN  <<x1, y1, Max(0, x2 - x1), Max(0, y2 - y1)>>
Area(r) == r[3] * r[4]
(* pad = <<top, right, bottom, left>> *)
Inner(r, pad) ==
    LET w == r[3] - pad[2] - pad[4]   h == r[4] - pad[1] - pad[3]
    IN  <<r[1] + pad[4], r[2] + pad[1], Max(0, w), Max(0, h)>>
(* The definition: the cells at least pad away from each edge. *)
InnerCells(r, pad) ==
    {c \in Cells(r) : /\ c[1] - Left(r) >= pad[4] /\ Right(r) - 1 - c[1] >= pad[2]
                      /\ c[2] - Top(r) >= pad[1]  /\ Bottom(r) - 1 - c[2] >= pad[3]}
Rows(r) == [i \in 1 .. r[4] |-> <<r[1], r[2] + i - 1, r[3], 1>>]
Cols(r) == [i \in 1 .. r[3] |-> <<r[1] + i - 1, r[2], 1, r[4]>>]
Indent(r, n) == <<r[1] + n, r[2], Max(0, r[3] - n), r[4]>>
Pad1(a) == <<a, a, a, a>>
Pad2(v, h) == <<v, h, v, h>>
=============================================================================
