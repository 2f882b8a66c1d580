------------------------------- MODULE Frame --------------------------------
(* Painting into areas of a buffer (property W01). A widget is given an area; what it paints lies in its visible part, the one inside of the   *)
(* buffer. It paints runs of cells, which end at the right edge, styles rectangles, and gives widgets inside of it areas that lie within its   *)
(* own, such as what is left inside of a border.                                                                                              *)
EXTENDS Geom
(* the cells of a run of w columns that starts d columns into row k of area a *)
Run(a, k, d, w) == {<<x, a[2] + k>> : x \in (a[1] + d) .. Min(a[1] + d + w, Right(a)) - 1}
Fits2(a, k, d) == k < a[4] /\ d < a[3]
CellsOf(r) == (Left(r) .. Right(r) - 1) \X (Top(r) .. Bottom(r) - 1)
=============================================================================
