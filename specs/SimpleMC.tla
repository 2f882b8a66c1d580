------------------------------ MODULE SimpleMC ------------------------------
(* What Simple means, for all ratios of small widths, small tab rows and popups: a bar shows its ratio as exactly as its *)
(* symbols allow, grows with it, is empty at 0 and full at 1; tabs follow each other in order without gaps; a popup lies   *)
(* inside, has the size asked for and keeps to its sides.                                                                   *)
EXTENDS Simple
CONSTANTS MAXW, BUG
VARIABLES w, d, done
Init == w = 1 /\ d = 1 /\ done = FALSE
Next == ~done /\ \/ w < MAXW /\ w' = w + 1 /\ UNCHANGED <<d, done>>
                 \/ d < 2 * MAXW /\ d' = d + 1 /\ UNCHANGED <<w, done>>
                 \/ done' = TRUE /\ UNCHANGED <<w, d>>
Spec == Init /\ [][Next]_<<w, d, done>>

Old1 == [s |-> "~", f |-> "0", b |-> "0", m |-> {}]
G(n, uni) == [n |-> n, d |-> d, uni |-> uni, gs |-> NoStyle, label |-> <<>>]
(* the eighths that a column shows *)
EighthsOf(c) == IF c.s = Full THEN 8 ELSE IF \E i \in 1 .. 9 : Eighths[i] = c.s THEN (CHOOSE i \in 1 .. 9 : Eighths[i] = c.s) - 1 ELSE 0
Most(O) == CHOOSE v \in {EighthsOf(c) : c \in O} : \A c \in O : EighthsOf(c) <= v
Least(O) == CHOOSE v \in {EighthsOf(c) : c \in O} : \A c \in O : EighthsOf(c) >= v
Col(k, n, uni) == Bar({Old1}, IF BUG = "shift" /\ uni THEN k + 1 ELSE k, w, G(n, uni), FALSE)
Sum(n, uni, pick(_)) == Fold(LAMBDA acc, k : acc + pick(Col(k, n, uni)), 0, [i \in 1 .. w |-> i - 1])
Within(v, n, unit) == LET e == v * d - 8 * w * n IN 2 * e <= unit * d /\ -2 * e <= unit * d      \* half a unit
GaugeMeans ==
    done => \A uni \in BOOLEAN : \A n \in 0 .. d :
        /\ Within(Sum(n, uni, Most), n, IF uni THEN 1 ELSE 8) /\ Within(Sum(n, uni, Least), n, IF uni THEN 1 ELSE 8)
        /\ n = 0 => Sum(n, uni, Most) = 0
        /\ n = d => Sum(n, uni, Least) = 8 * w
        /\ n > 0 => Sum(n - 1, uni, Least) <= Sum(n, uni, Most)
        /\ \A k \in 1 .. w - 1 : Most(Col(k, n, uni)) > 0 => Least(Col(k - 1, n, uni)) = 8 \/ Most(Col(k - 1, n, uni)) = 8   \* from the left
Ch(s, k) == [s |-> s, w |-> k, st |-> NoStyle, ss |-> <<>>]
Row(n) == [i \in 1 .. n |-> Ch("t", IF i = 2 THEN 2 ELSE 1)]
TabsMean ==
    done => \A a, b, c \in 0 .. 2 : \A q \in {TabPieces([titles |-> <<Row(a), Row(b)>>, padl |-> Row(1), padr |-> Row(c), div |-> Row(1), sel |-> 1], w)} :
        /\ q.x <= w
        /\ \A i \in 1 .. Len(q.out) - 1 : q.out[i + 1].x = q.out[i].x + WidthOf(q.out[i].cs)
        /\ q.out # <<>> => q.out[1].x = 0
        /\ ~q.cut => \/ q.x = w \/ Len(q.out) = 7
        /\ \A i \in DOMAIN q.out : q.out[i].hi <=> i = 6
PopupsMean ==
    done => \A h \in 0 .. 2 : \A c \in {<<"len", d>>, <<"pct", (100 * d) \div (2 * MAXW)>>} : \A r \in PopupRects([width |-> c, height |-> <<"len", 1>>, h |-> h, v |-> 0], <<3, 5, w, 2>>) :
        /\ r[1] >= 3 /\ r[1] + r[3] <= 3 + w /\ r[2] = 5 /\ r[4] = 1
        /\ c[1] = "len" => r[3] \in (Min(d, w) - (IF h = 1 THEN 1 ELSE 0)) .. (Min(d, w) + (IF h = 1 THEN 1 ELSE 0))
        /\ h = 0 => r[1] = 3
        /\ h = 2 => r[1] + r[3] = 3 + w
        /\ h = 1 => (r[1] - 3) - (3 + w - r[1] - r[3]) \in -1 .. 1
=============================================================================
