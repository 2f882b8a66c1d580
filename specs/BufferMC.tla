------------------------------ MODULE BufferMC ------------------------------
(* What writing strings has to achieve, stated independently of the definition of Placed: checked for all    *)
(* short strings, start columns and limits.                                                                  *)
EXTENDS Buffer
CONSTANTS BUG, MAXLEN
VARIABLES gs, done

G == {[s |-> "a", w |-> 1], [s |-> "b", w |-> 1], [s |-> "W", w |-> 2], [s |-> "z", w |-> 0]}
A == <<2, 1, 4, 2>>
Base == [a |-> A, c |-> [i \in 1 .. 8 |-> [s |-> "~", f |-> "old", b |-> "old", m |-> {1}]]]
St == [f |-> "red", b |-> "", add |-> {0}, sub |-> {1}]

Init == gs = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(gs) < MAXLEN /\ \E g \in G : gs' = Append(gs, g) /\ done' = FALSE
        \/ done' = TRUE /\ gs' = gs
Spec == Init /\ [][Next]_<<gs, done>>

SS(x, n) == IF BUG = "skip"   \* a control: goes on after a grapheme that does not fit
            THEN LET fit == SelectSeq(gs, LAMBDA g : g.w < 2 \/ Room(A, x, n) # 1) IN SetString(Base, x, 1, fit, n, St)
            ELSE SetString(Base, x, 1, gs, n, St)
RECURSIVE Widths(_)
Widths(q) == IF q = <<>> THEN 0 ELSE Head(q).w + Widths(Tail(q))
Row(c, y) == [i \in 1 .. 4 |-> c[Idx(A, 1 + i, y)]]
Visible(q) == SelectSeq(q, LAMBDA g : g.w > 0)
Good(x, n) ==
    \A r \in {SS(x, n)} : LET room == Room(A, x, n)  v == Visible(gs)
        row == Row(r.buf.c, 1)
    IN \E k \in 0 .. Len(v) :
        /\ Widths(SubSeq(v, 1, k)) <= room
        /\ k < Len(v) => Widths(SubSeq(v, 1, k + 1)) > room      \* as many as fit
        /\ r.x = x + Widths(SubSeq(v, 1, k)) /\ r.y = 1
        /\ \A j \in 1 .. k : LET at == x - 1 + Widths(SubSeq(v, 1, j - 1)) IN   \* 1-based column in the row
              /\ row[at].s = v[j].s /\ row[at].f = "red" /\ row[at].b = "old" /\ row[at].m = {0}
              /\ v[j].w = 2 => row[at + 1] = BlankCell
        /\ \A i \in 1 .. 4 : (i < x - 1 \/ i >= r.x - 1) => row[i] = Base.c[1]
        /\ Row(r.buf.c, 2) = Row(Base.c, 2)
Inv == \A x \in 2 .. 7 : \A n \in -1 .. 5 : Good(x, n)
StyleOk == \A a \in {<<0, 0, 3, 2>>, <<3, 1, 1, 1>>, <<0, 0, 9, 9>>, <<5, 2, 4, 4>>, <<9, 9, 1, 1>>, <<3, 1, 0, 2>>} :
            \A r \in {SetStyle(Base, a, St)} : \A x \in 2 .. 5 : \A y \in 1 .. 2 :
               LET c == r.c[Idx(A, x, y)]  o == Base.c[1] IN
               c.s = o.s /\ IF Inside(a, x, y) THEN c.f = "red" /\ c.m = {0} ELSE c = o
InvAll == done => Inv /\ StyleOk
=============================================================================
