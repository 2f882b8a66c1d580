------------------------------- MODULE ModMC -------------------------------
(* S02: from every set of attributes to every other one. *)
EXTENDS Render
VARIABLES pen, goal
Init == pen = Pen0 /\ goal = {}
To(m) == FoldLeft(LAMBDA p, t : Sgr(p, t.p, 1), pen, ModDiff(pen.m, m))
Next == \E m \in SUBSET (0 .. 8) : pen' = To(m) /\ goal' = m
Spec == Init /\ [][Next]_<<pen, goal>>
Inv == pen.m = goal /\ pen.f = <<>> /\ pen.b = <<>>
=============================================================================
