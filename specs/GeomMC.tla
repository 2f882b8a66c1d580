------------------------------- MODULE GeomMC -------------------------------
(* Exhaustive check, on a small grid, that the closed forms of Geom mean what the property says. *)
EXTENDS Geom
CONSTANTS N, P
VARIABLES a, b, pad
vars == <<a, b, pad>>
Rects == {<<x, y, w, h>> : x \in 0 .. N, y \in 0 .. N, w \in 0 .. N, h \in 0 .. N}
Init == a \in Rects /\ b = <<0, 0, 0, 0>> /\ pad = <<0, 0, 0, 0>>
PickB == b' \in Rects /\ UNCHANGED <<a, pad>>
PickPad == pad' \in {<<t, r, bt, l>> : t \in 0 .. P, r \in 0 .. P, bt \in 0 .. P, l \in 0 .. P} /\ UNCHANGED <<a, b>>
Next == (b = <<0, 0, 0, 0>> /\ pad = <<0, 0, 0, 0>>) /\ (PickB \/ PickPad)
Spec == Init /\ [][Next]_vars

Interval(n) == 0 .. n
InterIsCommonCells == Cells(Inter(a, b)) = Cells(a) \cap Cells(b)
InterTotal == NonNeg(Inter(a, b)) /\ SameCells(Inter(a, b), Inter(b, a))
ContainsIsMembership == \A p \in (0 .. (2 * N + 1)) \X (0 .. (2 * N + 1)) : Contains(a, p) <=> p \in Cells(a)
AreaIsCardinality == Area(a) = Cardinality(Cells(a))
EmptyIsEmpty == Empty(a) <=> Cells(a) = {}
InnerIsMeaning == Cells(Inner(a, pad)) = InnerCells(a, pad) /\ NonNeg(Inner(a, pad))
RowsPartition ==
    /\ UNION {Cells(Rows(a)[i]) : i \in DOMAIN Rows(a)} = Cells(a)
    /\ \A i, j \in DOMAIN Rows(a) : i < j => Rows(a)[i][2] < Rows(a)[j][2]
    /\ \A i, j \in DOMAIN Rows(a) : i # j => Cells(Rows(a)[i]) \cap Cells(Rows(a)[j]) = {}
ColsPartition ==
    /\ UNION {Cells(Cols(a)[i]) : i \in DOMAIN Cols(a)} = Cells(a)
    /\ \A i, j \in DOMAIN Cols(a) : i # j => Cells(Cols(a)[i]) \cap Cells(Cols(a)[j]) = {}
IndentDropsLeft == \A n \in 0 .. (N + 1) : Cells(Indent(a, n)) = {c \in Cells(a) : c[1] >= Left(a) + n}
Inv == InterIsCommonCells /\ InterTotal /\ ContainsIsMembership /\ AreaIsCardinality /\ EmptyIsEmpty
       /\ InnerIsMeaning /\ RowsPartition /\ ColsPartition /\ IndentDropsLeft
=============================================================================
