------------------------------ MODULE StyleMC ------------------------------
(* The laws of S04, for all styles over two colours and two modifiers.                                       *)
EXTENDS Style
CONSTANT BUG      \* "none"; "sub": a patch that removes a modifier forgets to; a control
VARIABLE st, cell

Colors == {"", "red", "blue"}
Styles == {s \in [f : Colors, b : {"", "red"}, add : SUBSET {0, 1}, sub : SUBSET {0, 1}] : s.add \cap s.sub = {}}
CellsSet == {[s |-> "a", f |-> f, b |-> b, m |-> m] : f \in {Reset, "red"}, b \in {Reset, "red"}, m \in SUBSET {0, 1}}
P(a, b) == IF BUG = "sub" THEN [Patched(a, b) EXCEPT !.add = a.add \cup b.add] ELSE Patched(a, b)

Init == st = NoStyle /\ cell \in CellsSet
(* patching reaches exactly the well-formed styles, and applying one after the other is applying the patched one *)
Next == \E p \in Styles : st' = P(st, p) /\ cell' = cell
Spec == Init /\ [][Next]_<<st, cell>>
Compose == \A p \in Styles : Styled(Styled(cell, st), p) = Styled(cell, P(st, p))
Assoc == \A p \in Styles : \A q \in Styles : P(P(st, p), q) = P(st, P(p, q))
Ident == P(st, NoStyle) = st /\ P(NoStyle, st) = st /\ Styled(cell, NoStyle) = cell
Later == \A p \in Styles : LET r == Styled(cell, P(st, p)) IN
            /\ p.f # "" => r.f = p.f
            /\ p.add \subseteq r.m /\ p.sub \cap r.m = {}
WellFormed == st \in Styles
Builders == \A M \in SUBSET {0, 1} : WithMod(st, M) \in Styles /\ WithoutMod(st, M) \in Styles
              /\ M \subseteq WithMod(st, M).add /\ M \cap WithoutMod(st, M).add = {}
Inv == Compose /\ Assoc /\ Ident /\ Later /\ WellFormed /\ Builders
=============================================================================
