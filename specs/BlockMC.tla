------------------------------ MODULE BlockMC -------------------------------
(* What Block means, for all sets of sides, small areas, paddings and titles: the inner area is what neither borders  *)
(* nor titles nor padding need, and it is left alone; titles stay between the corners, side by side and in order.       *)
EXTENDS Block
CONSTANTS MAXW, MAXH, BUG
VARIABLES b, a, done

T(n, al, pos) == [al |-> al, pos |-> pos, line |-> [al |-> 0, st |-> NoStyle, sp |-> <<[st |-> NoStyle, gs |-> [i \in 1 .. n |-> [s |-> "t", w |-> 1]]]>>]]
Init == /\ a \in {<<1, 1, w, h>> : w \in 1 .. MAXW, h \in 1 .. MAXH}
        /\ \E sides \in SUBSET {"T", "R", "B", "L"} : \E pad \in {<<0, 0, 0, 0>>, <<1, 0, 0, 2>>, <<0, 1, 1, 0>>} :
             b = [NoBlock EXCEPT !.sides = sides, !.pad = pad, !.bs = WithFg(NoStyle, "1"), !.st = WithBg(NoStyle, "2"), !.ts = WithFg(NoStyle, "3")]
        /\ done = FALSE
Next == /\ ~done
        /\ \/ Len(b.titles) < 2 /\ \E n \in {1, 3} : \E al \in 1 .. 3 : \E pos \in {0, 1} : b' = [b EXCEPT !.titles = Append(@, T(n, al, pos))] /\ done' = FALSE
           \/ done' = TRUE /\ b' = b
        /\ a' = a
Spec == Init /\ [][Next]_<<b, a, done>>

Free == {p \in Cells(a) : /\ On(b, a, p[1], p[2]) = {}
                          /\ (HasTitle(b, 0) => p[2] # Top(a)) /\ (HasTitle(b, 1) => p[2] # Bottom(a) - 1)}
Padded == {p \in Cells(a) : \A d \in (-b.pad[4] .. b.pad[2]) \X (-b.pad[1] .. b.pad[3]) : <<p[1] + d[1], p[2] + d[2]>> \in Free}
In == IF BUG = "title" THEN Inner(InnerOf([b EXCEPT !.titles = <<>>], a), <<0, 0, 0, 0>>) ELSE InnerOf(b, a)
InnerMeans == done => Cells(In) = Padded
Old1 == [s |-> "~", f |-> "0", b |-> "0", m |-> {}]
LeftAlone == done => \A p \in Cells(In) : PutBlock({Old1}, p[1], p[2], b, a, Titles(b, a)) = {Styled(Old1, b.st)}
Sp(al, A) == IF BUG = "gap" /\ al = 3 THEN Spots(b.titles, 1, A) ELSE Spots(b.titles, al, A)
TitlesMean ==
    done => \A al \in 1 .. 3 : \A A \in 0 .. a[3] : \A s \in {Sp(al, A)} :
        LET on == {i \in DOMAIN s : s[i][2] > 0}
            len(i) == TitleWidth(b.titles[i])
            first == CHOOSE i \in on : \A j \in on : i <= j      last == CHOOSE i \in on : \A j \in on : i >= j
        IN  /\ \A i \in on : s[i][1] >= 0 /\ s[i][1] + s[i][2] <= A /\ s[i][2] <= len(i)
            /\ \A i, j \in on : i < j => s[i][1] + s[i][2] < s[j][1]
            /\ on = {} => A = 0 \/ b.titles = <<>>
            /\ on # {} => /\ al = 1 => s[first][1] = 0
                          /\ al = 3 => s[last][1] + s[last][2] = A
                          /\ al = 2 /\ TotalWidth(b.titles) <= A => s[first][1] - (A - (s[last][1] + s[last][2])) \in {0, -1}
            /\ TotalWidth(b.titles) <= A => \A i \in DOMAIN s : s[i][2] = len(i)
(* titles stay off the borders at the sides *)
OffBorders == done => \A p \in Cells(a) : \A O \in {PutBlock({Old1}, p[1], p[2], b, a, Titles(b, a))} :
                 \A c \in O : c.s = "t" => On(b, a, p[1], p[2]) \cap {"L", "R"} = {}
=============================================================================
