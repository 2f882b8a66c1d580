------------------------------- MODULE Buffer -------------------------------
(* Buffers (property S03): [a, c], an area <<x, y, w, h>> and its cells row by row (records as in Style).    *)
(* Text is a sequence of graphemes [s, w].                                                                   *)
EXTENDS Style, Geom

Idx(a, x, y) == (y - a[2]) * a[3] + (x - a[1]) + 1
Inside(a, x, y) == Contains(a, <<x, y>>)
Put(c, a, x, y, cell) == IF Inside(a, x, y) THEN [c EXCEPT ![Idx(a, x, y)] = cell] ELSE c

(* Which graphemes are written, and at which columns: <<index, column>>; ends before the first one that does *)
(* not fit into the room.                                                                                    *)
RECURSIVE Placed(_, _, _, _, _)
Placed(gs, i, x, room, acc) ==
    IF i > Len(gs) \/ room <= 0 THEN [p |-> acc, x |-> x]
    ELSE IF gs[i].w = 0 THEN Placed(gs, i + 1, x, room, acc)
    ELSE IF gs[i].w > room THEN [p |-> acc, x |-> x]
    ELSE Placed(gs, i + 1, x + gs[i].w, room - gs[i].w, Append(acc, <<i, x>>))

(* limit < 0: no limit *)
Room(a, x, limit) == LET r == Max(0, Right(a) - x) IN IF limit < 0 THEN r ELSE Min(limit, r)

SetString(buf, x, y, gs, limit, st) ==
    LET pl == Placed(gs, 1, x, Room(buf.a, x, limit), <<>>)
        a == buf.a
        owner(px) == {k \in DOMAIN pl.p : pl.p[k][2] <= px /\ px < pl.p[k][2] + gs[pl.p[k][1]].w}
        cellAt(px, old) ==
            LET o == owner(px) IN
            IF o = {} THEN old
            ELSE LET k == CHOOSE k \in o : TRUE  g == gs[pl.p[k][1]] IN
                 IF pl.p[k][2] = px THEN Styled([old EXCEPT !.s = g.s], st) ELSE BlankCell
    IN [buf |-> [buf EXCEPT !.c = [i \in DOMAIN buf.c |->
                    LET px == a[1] + ((i - 1) % a[3])   py == a[2] + ((i - 1) \div a[3])
                    IN  IF py = y THEN cellAt(px, buf.c[i]) ELSE buf.c[i]]],
        x |-> pl.x, y |-> y]

SetStyle(buf, area, st) ==
    [buf EXCEPT !.c = [i \in DOMAIN buf.c |->
        LET px == buf.a[1] + ((i - 1) % buf.a[3])   py == buf.a[2] + ((i - 1) \div buf.a[3])
        IN  IF Inside(area, px, py) THEN Styled(buf.c[i], st) ELSE buf.c[i]]]

Filled(area, cell) == [a |-> area, c |-> [i \in 1 .. Area(area) |-> cell]]
ResetAll(buf) == Filled(buf.a, BlankCell)
SetSymbol(buf, x, y, s, st) ==
    [buf EXCEPT !.c = Put(@, buf.a, x, y, Styled([@[Idx(buf.a, x, y)] EXCEPT !.s = s], st))]
=============================================================================
