-------------------------------- MODULE Text --------------------------------
(* Styled text (properties T01, T02, T03).                                                                    *)
(* A grapheme is [s, w]: symbol and width (0: attaches to what is before it, -1: a control character, dropped). *)
(* A span is [st, gs], a line [al, st, sp], a text [al, st, ls]; alignments 0 none, 1 left, 2 centre, 3 right.  *)
(* A character of a line is [s, w, st, ss]: symbol, width > 0 (or 0 for a blank without width, which only        *)
(* separates words), style, and the symbols a cell may show for it (with the zero-width graphemes after it).     *)
EXTENDS Style, Geom, SeqFold

(* white space that is not a no-break space, and the zero-width space *)
Blanks == {" ", "<3000>", "<1680>", "<200b>", "<2000>", "<2001>", "<2002>", "<2003>", "<2004>", "<2005>", "<2006>", "<2008>", "<2009>", "<200a>", "<205f>"}
IsBlank(c) == c.s \in Blanks

(* graphemes to characters, all of style st; brk: zero-width blanks separate words, as in a paragraph *)
Chars(gs, st, brk) ==
    Fold(LAMBDA acc, g :
        IF g.w < 0 THEN acc
        ELSE IF g.w > 0 \/ (brk /\ g.s \in Blanks) THEN Append(acc, [s |-> g.s, w |-> g.w, st |-> st, ss |-> <<g.s>>])
        ELSE IF acc = <<>> THEN acc
        ELSE [acc EXCEPT ![Len(acc)].ss = Append(@, @[Len(@)] \o g.s)], <<>>, gs)
LineChars(line, base, brk) ==
    Fold(LAMBDA acc, sp : acc \o Chars(sp.gs, Patched(Patched(base, line.st), sp.st), brk), <<>>, line.sp)
Visible(cs) == SelectSeq(cs, LAMBDA c : c.w > 0)
WidthOf(cs) == Fold(LAMBDA n, c : n + c.w, 0, cs)
Shows(c, sym) == sym = c.s \/ \E i \in DOMAIN c.ss : sym = c.ss[i]

(* ---- T01: a line in a row of A columns *)
Aligned(al, A, L) == CASE al \in {0, 1} -> 0 [] al = 2 -> IF L <= A THEN (A - L) \div 2 ELSE -((L - A) \div 2) [] al = 3 -> A - L
Pick(al, parent) == IF al = 0 THEN parent ELSE al
(* what column k (0-based) of the row shows: 0 nothing, -1 the rest of a wide character, else the index of the character *)
Starts(cs) == Fold(LAMBDA acc, c : Append(acc, acc[Len(acc)] + c.w), <<0>>, cs)
Window(cs, off, A) ==
    LET at == Starts(cs)
        in == {i \in DOMAIN cs : at[i] + off >= 0 /\ at[i] + cs[i].w + off <= A}
    IN  [k \in 0 .. A - 1 |->
            IF \E i \in in : at[i] + off = k THEN CHOOSE i \in in : at[i] + off = k
            ELSE IF \E i \in in : at[i] + off < k /\ k < at[i] + cs[i].w + off THEN -1 ELSE 0]

(* ---- T03: an unwrapped line, scrolled by x columns: characters wider than the whole row are left out; of a    *)
(* left-aligned line the first x columns are, too, except that a character they would cut is kept whole; as many *)
(* of the rest as fit are shown.                                                                                 *)
Drop(cs, x) ==
    LET at == Starts(cs)  keep == {i \in DOMAIN cs : at[i] + cs[i].w > x}
    IN  IF keep = {} THEN <<>> ELSE LET m == CHOOSE m \in keep : \A j \in keep : m <= j IN SubSeq(cs, m, Len(cs))
Fitting(cs, A) ==
    LET at == Starts(cs)  bad == {i \in DOMAIN cs : at[i] + cs[i].w > A}
    IN  IF bad = {} THEN cs ELSE LET m == CHOOSE m \in bad : \A j \in bad : m <= j IN SubSeq(cs, 1, m - 1)
Unwrapped(cs, A, x, al) ==
    LET ok == SelectSeq(cs, LAMBDA c : c.w > 0 /\ c.w <= A) IN Fitting(IF al = 1 THEN Drop(ok, x) ELSE ok, A)
(* first columns a row of width w may start at *)
Margin(al, A, w) == CASE al = 1 -> {0} [] al = 3 -> {A - w} [] al = 2 -> {(A - w) \div 2, (A - w + 1) \div 2}

(* ---- lines of a string *)
IsBreak(g) == g.s \in {"<a>", "<d><a>"}
LinesOf(gs) ==
    LET cut == Fold(LAMBDA acc, g : IF IsBreak(g) THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, g)], <<<<>>>>, gs)
    IN  IF Len(cut) > 1 /\ cut[Len(cut)] = <<>> THEN SubSeq(cut, 1, Len(cut) - 1) ELSE cut
=============================================================================
