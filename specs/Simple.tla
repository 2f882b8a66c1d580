------------------------------- MODULE Simple -------------------------------
(* Gauges, tabs, popups, fills and clears (property W06): what each makes of a cell that may be one of O.            *)
EXTENDS Block

(* characters cs from column x0 of row y0, as many as fit into w columns; each in its own style *)
PutChars(O, x, y, x0, y0, cs, at) ==
    IF y # y0 THEN O
    ELSE LET on == {i \in DOMAIN cs : x0 + at[i] <= x /\ x < x0 + at[i] + cs[i].w} IN
         IF on = {} THEN O ELSE LET i == CHOOSE i \in on : TRUE IN IF x0 + at[i] = x THEN PutChar(O, cs[i], cs[i].st) ELSE {}

(* ---- gauges: n/d of the width is filled, rounded to whole columns, or with fine symbols rounded to eighths of one; *)
(* of two equally near roundings either will do                                                                       *)
Rounded(q, d) == {k \in {(2 * q - d) \div (2 * d), (2 * q) \div (2 * d), (2 * q + d) \div (2 * d)} : 2 * (k * d - q) <= d /\ 2 * (q - k * d) <= d}
Full == "<2588>"
Eighths == <<" ", "<258f>", "<258e>", "<258d>", "<258c>", "<258b>", "<258a>", "<2589>", Full>>
Digits(k) == IF k < 10 THEN <<ToString(k)>> ELSE IF k < 100 THEN <<ToString(k \div 10), ToString(k % 10)>> ELSE <<ToString(k \div 100), ToString((k \div 10) % 10), ToString(k % 10)>>
(* the possible labels, as characters *)
Labels(g) ==
    IF g.label # <<>> THEN {Visible(Chars(g.label[1].gs, g.label[1].st, FALSE))}
    ELSE {[i \in 1 .. Len(q) |-> [s |-> q[i], w |-> 1, st |-> NoStyle, ss |-> <<>>]] : q \in {Append(Digits(k), "%") : k \in Rounded(100 * g.n, g.d)}}
Or(c, alt) == IF c = "" THEN alt ELSE c
(* the bar under the label region R (columns lc .. lc + lw - 1 of row lr): the filled cells are full, or blank under the label *)
Filled(O, g, under) ==
    IF under THEN {[c EXCEPT !.s = " ", !.f = Or(g.gs.f, Reset), !.b = Or(g.gs.b, Reset)] : c \in O} \cup {[c EXCEPT !.s = " ", !.f = Or(g.gs.b, Reset), !.b = Or(g.gs.f, Reset)] : c \in O}
    ELSE {[c EXCEPT !.s = Full, !.f = Or(g.gs.f, Reset), !.b = Or(g.gs.b, Reset)] : c \in O}
Bar(O, k, W, g, under) ==                                      \* column k (0-based) of W
    LET q == W * g.n  whole == q \div g.d IN
    IF ~g.uni THEN UNION {IF k < end THEN Filled(O, g, under) ELSE O : end \in Rounded(q, g.d)}
    ELSE IF k < whole THEN Filled(O, g, under) \cup (IF q % g.d = 0 /\ k = whole - 1 THEN {[c EXCEPT !.s = Full] : c \in O} ELSE {})
    ELSE IF k = whole THEN (IF q % g.d = 0 THEN O ELSE {}) \cup {[c EXCEPT !.s = Eighths[m + 1]] : c \in O, m \in Rounded(8 * (q % g.d), g.d)}
    ELSE O
PutGauge(O, x, y, in, g, labels) ==
    IF ~Contains(in, <<x, y>>) THEN O
    ELSE UNION {
        LET lw == Min(in[3], WidthOf(lb))  lc == in[1] + ((in[3] - lw) \div 2)  lr == in[2] + (in[4] \div 2)
            cs == Fitting(lb, lw)
            B == Bar(PutStyle(O, g.gs), x - in[1], in[3], g, y = lr /\ x >= lc /\ x < lc + lw)
        IN  PutChars(B, x, y, lc, lr, cs, Starts(cs)) : lb \in labels}

(* ---- tabs: one after the other on the first row of the inside, each between its paddings, with the divider between them; *)
(* cut at the right edge. A piece of the row: [x, cs, hi]. What follows a character that does not fit any more is open.       *)
TabPieces(t, A) ==
    LET parts == Fold(LAMBDA acc, i : acc \o <<[cs |-> t.padl, hi |-> FALSE], [cs |-> t.titles[i], hi |-> t.sel = i - 1], [cs |-> t.padr, hi |-> FALSE]>>
                                           \o (IF i = Len(t.titles) THEN <<>> ELSE <<[cs |-> t.div, hi |-> FALSE]>>), <<>>, [i \in DOMAIN t.titles |-> i])
    IN  Fold(LAMBDA acc, p :
              IF acc.cut \/ acc.x = A THEN acc
              ELSE LET f == Fitting(p.cs, A - acc.x) IN
                   [x |-> acc.x + WidthOf(f), cut |-> Len(f) < Len(p.cs) , out |-> Append(acc.out, [x |-> acc.x, cs |-> f, at |-> Starts(f), hi |-> p.hi])],
             [x |-> 0, cut |-> FALSE, out |-> <<>>], parts)
PutTabs(O, x, y, in, t, pieces) ==
    IF y # in[2] \/ ~Contains(in, <<x, y>>) THEN O
    ELSE IF x - in[1] >= pieces.x THEN (IF pieces.cut /\ pieces.x < in[3] THEN {} ELSE O)
    ELSE Fold(LAMBDA acc, p : LET O1 == PutChars(acc, x, y, in[1] + p.x, in[2], p.cs, p.at) IN
                              IF p.hi /\ x - in[1] >= p.x /\ x - in[1] < p.x + WidthOf(p.cs) THEN PutStyle(O1, t.hl) ELSE O1, O, pieces.out)

(* ---- popups: the size of a side along A cells, in hundredths; both its ends are rounded to whole cells *)
Size(c, A) == IF c[1] = "len" THEN Min(100 * c[2], 100 * A) ELSE A * c[2]
Near(q) == UNION {Rounded(q + i, 200) : i \in -1 .. 1}
Ends(flex, A, L) ==                                              \* <<start, length>>
    LET from == CASE flex = 0 -> 0 [] flex = 1 -> 100 * A - L [] flex = 2 -> 200 * A - 2 * L IN     \* in 200ths
    {<<u, v - u>> : <<u, v>> \in {q \in Near(from) \X Near(from + 2 * L) : 0 <= q[1] /\ q[1] <= q[2] /\ q[2] <= A}}
PopupRects(p, a) ==
    {<<a[1] + q[1][1], a[2] + q[2][1], q[1][2], q[2][2]>> : q \in Ends(p.h, a[3], Size(p.width, a[3])) \X Ends(p.v, a[4], Size(p.height, a[4]))}
=============================================================================
