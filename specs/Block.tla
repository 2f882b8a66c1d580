------------------------------- MODULE Block --------------------------------
(* Blocks (property W05): borders, titles, inner area. A block is [sides, set, titles, ta, tp, ts, bs, st, pad]:      *)
(* sides \subseteq {"T", "R", "B", "L"}, set the name of its symbols, titles a sequence of [al, pos, line] (pos 0 top, *)
(* 1 bottom, -1 as tp says; al 0: as ta says), ta, tp where titles go by default, styles ts of titles, bs of borders   *)
(* and st of all, pad <<top, right, bottom, left>>.                                                                    *)
EXTENDS Paint

Symbols == [sharp   |-> [T |-> "<2500>", B |-> "<2500>", L |-> "<2502>", R |-> "<2502>", TL |-> "<250c>", TR |-> "<2510>", BL |-> "<2514>", BR |-> "<2518>"],
            rounded |-> [T |-> "<2500>", B |-> "<2500>", L |-> "<2502>", R |-> "<2502>", TL |-> "<256d>", TR |-> "<256e>", BL |-> "<2570>", BR |-> "<256f>"],
            double  |-> [T |-> "<2550>", B |-> "<2550>", L |-> "<2551>", R |-> "<2551>", TL |-> "<2554>", TR |-> "<2557>", BL |-> "<255a>", BR |-> "<255d>"],
            thick   |-> [T |-> "<2501>", B |-> "<2501>", L |-> "<2503>", R |-> "<2503>", TL |-> "<250f>", TR |-> "<2513>", BL |-> "<2517>", BR |-> "<251b>"]]

(* the enabled sides a cell of area a lies on, and the symbols it may show; where the area is so narrow that opposite *)
(* sides coincide, either will do                                                                                     *)
On(b, a, x, y) == {s \in b.sides : CASE s = "T" -> y = Top(a) [] s = "B" -> y = Bottom(a) - 1 [] s = "L" -> x = Left(a) [] s = "R" -> x = Right(a) - 1}
Corners == {<<"T", "L", "TL">>, <<"T", "R", "TR">>, <<"B", "L", "BL">>, <<"B", "R", "BR">>}
BorderSyms(b, on) ==
    LET cs == {c \in Corners : {c[1], c[2]} \subseteq on} IN
    IF cs # {} THEN {Symbols[b.set][c[3]] : c \in cs} ELSE {Symbols[b.set][s] : s \in on}

HasTitle(b, pos) == \E i \in DOMAIN b.titles : (IF b.titles[i].pos = -1 THEN b.tp ELSE b.titles[i].pos) = pos
One(c) == IF c THEN 1 ELSE 0
InnerOf(b, a) ==
    Inner(Inner(a, <<One("T" \in b.sides \/ HasTitle(b, 0)), One("R" \in b.sides), One("B" \in b.sides \/ HasTitle(b, 1)), One("L" \in b.sides)>>), b.pad)

(* ---- titles: those of one position and alignment stand side by side, one column apart, from the left corner, centred, *)
(* or up to the right corner, within the corners; each is cut to what is left. Left ones cover centred ones, and these      *)
(* cover right ones.                                                                                                          *)
TitleWidth(t) == WidthOf(Visible(LineChars(t.line, NoStyle, FALSE)))
TitlesOf(b, pos, al) == SelectSeq(b.titles, LAMBDA t : (IF t.pos = -1 THEN b.tp ELSE t.pos) = pos /\ (IF t.al = 0 THEN Max(1, b.ta) ELSE t.al) = al)
TotalWidth(ts) == Fold(LAMBDA n, t : n + TitleWidth(t) + 1, 0, ts) - 1
(* where they are: <<first column, width>> within A columns *)
Reverse(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Forward(ts, from, A) == Fold(LAMBDA acc, t : [at |-> acc.at + TitleWidth(t) + 1, out |-> Append(acc.out, <<acc.at, Max(0, Min(TitleWidth(t), A - acc.at))>>)], [at |-> from, out |-> <<>>], ts).out
Spots(ts, al, A) ==
    IF al = 1 THEN Forward(ts, 0, A)
    ELSE IF al = 2 THEN Forward(ts, Max(0, A - TotalWidth(ts)) \div 2, A)
    ELSE LET f == Forward(Reverse(ts), 0, A) IN Reverse([i \in DOMAIN f |-> <<A - f[i][1] - f[i][2], f[i][2]>>])
(* all titles of a block in area a as placed lines, in the order in which they are painted *)
TitleLine(b, a, t, spot, y) ==
    Placed(Left(a) + One("L" \in b.sides) + spot[1], y, spot[2], Visible(LineChars(t.line, NoStyle, FALSE)), t.line.st,
           IF t.al # 0 THEN t.al ELSE t.line.al, b.ts)
RowTitles(b, a, pos, al) ==
    LET ts == TitlesOf(b, pos, al)  A == Max(0, a[3] - One("L" \in b.sides) - One("R" \in b.sides))  sp == Spots(ts, al, A)
        q == [i \in DOMAIN ts |-> TitleLine(b, a, ts[i], sp[i], IF pos = 0 THEN Top(a) ELSE Bottom(a) - 1)]
    IN  SelectSeq(IF al = 3 THEN Reverse(q) ELSE q, LAMBDA p : p.w > 0)
Titles(b, a) == Fold(LAMBDA acc, k : acc \o RowTitles(b, a, k[1], k[2]), <<>>, <<<<0, 3>>, <<0, 2>>, <<0, 1>>, <<1, 3>>, <<1, 2>>, <<1, 1>>>>)

(* what a block makes of a cell of its (visible) area a that may be one of O; titles: Titles(b, a) *)
PutBlock(O, x, y, b, a, titles) ==
    LET O1 == PutStyle(O, b.st)   on == On(b, a, x, y)
        O2 == IF on = {} THEN O1 ELSE UNION {PutSym(O1, s, b.bs) : s \in BorderSyms(b, on)}
    IN  Fold(LAMBDA acc, p : PutLine(acc, x, y, p), O2, titles)

NoBlock == [sides |-> {}, set |-> "sharp", titles |-> <<>>, ta |-> 1, tp |-> 0, ts |-> NoStyle, bs |-> NoStyle, st |-> NoStyle, pad |-> <<0, 0, 0, 0>>]
BlockOf(j) ==
    [sides |-> {j.sides[i] : i \in DOMAIN j.sides}, set |-> j.set, ta |-> j.ta, tp |-> j.tp, ts |-> Sty(j.ts), bs |-> Sty(j.bs), st |-> Sty(j.st), pad |-> j.pad,
     titles |-> [i \in DOMAIN j.titles |-> [al |-> j.titles[i].al, pos |-> j.titles[i].pos, line |-> LineOf(j.titles[i].line)]]]
(* the optional block of another widget: <<>> or <<block>> *)
BlockIn(j) == IF j = <<>> THEN NoBlock ELSE BlockOf(j[1])
=============================================================================
