-------------------------------- MODULE Wrap --------------------------------
(* Word wrapping (property T02): when does a sequence of rows show a line of text, wrapped to W columns?         *)
(* A line is a sequence of characters (see Text; zero-width blanks included), a row a sequence of [s, w, b]:      *)
(* symbol, width, blank. Characters wider than W cannot be shown.                                                 *)
EXTENDS Text

Blank(c) == c.s \in Blanks
RowWidth(r) == Fold(LAMBDA n, c : n + c.w, 0, r)
NonBlank(r) == SelectSeq(r, LAMBDA c : ~Blank(c))
FirstNB(r) == IF \A i \in DOMAIN r : Blank(r[i]) THEN 0 ELSE CHOOSE i \in DOMAIN r : ~Blank(r[i]) /\ \A j \in 1 .. i - 1 : Blank(r[j])
LastNB(r) == IF \A i \in DOMAIN r : Blank(r[i]) THEN 0 ELSE CHOOSE i \in DOMAIN r : ~Blank(r[i]) /\ \A j \in i + 1 .. Len(r) : Blank(r[j])
RECURSIVE SubSequence(_, _)
SubSequence(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                     ELSE IF Head(a) = Head(b) THEN SubSequence(Tail(a), Tail(b)) ELSE SubSequence(a, Tail(b))
Syms(r) == [i \in DOMAIN r |-> r[i].s]

(* Why rows R do not show the line T (which has only characters that fit); "" when they do. same(c, sym): whether  *)
(* the character c may be shown as sym.                                                                            *)
Why(T, R, W, trim) ==
    LET nb == SelectSeq([i \in DOMAIN T |-> i], LAMBDA i : ~Blank(T[i]))           \* positions of the words' characters
        full == SelectSeq([i \in DOMAIN R |-> i], LAMBDA i : FirstNB(R[i]) > 0)     \* rows that show any of them
        shown == Fold(LAMBDA acc, r : acc \o NonBlank(r), <<>>, R)
        cnt == Fold(LAMBDA acc, i : Append(acc, acc[Len(acc)] + Len(NonBlank(R[i]))), <<0>>, full)
        F == DOMAIN full
        from(k) == nb[cnt[k] + 1]      to(k) == nb[cnt[k + 1]]                       \* the k-th such row: from .. to of T
        row(k) == R[full[k]]
        vis(a, b) == Visible(SubSeq(T, a, b))
        gap(k) == IF k = 0 THEN SubSeq(T, 1, (IF F = {} THEN Len(T) ELSE from(1) - 1))   \* what separates it from the next
                  ELSE IF k = Len(full) THEN SubSeq(T, to(k) + 1, Len(T)) ELSE SubSeq(T, to(k) + 1, from(k + 1) - 1)
        blanksIn(k) ==                                                               \* what the rows show of the gap
            (IF k = 0 THEN <<>> ELSE SubSeq(row(k), LastNB(row(k)) + 1, Len(row(k))))
            \o Fold(LAMBDA acc, r : acc \o r, <<>>, SubSeq(R, (IF k = 0 THEN 0 ELSE full[k]) + 1, (IF k = Len(full) THEN Len(R) + 1 ELSE full[k + 1]) - 1))
            \o (IF k = Len(full) THEN <<>> ELSE SubSeq(row(k + 1), 1, FirstNB(row(k + 1)) - 1))
        wordFrom(i) == CHOOSE a \in 1 .. i : (\A j \in a .. i : ~Blank(T[j])) /\ (a = 1 \/ Blank(T[a - 1]))
        wordTo(i) == CHOOSE b \in i .. Len(T) : (\A j \in i .. b : ~Blank(T[j])) /\ (b = Len(T) \/ Blank(T[b + 1]))
        wordWidth(i) == WidthOf(SubSeq(T, wordFrom(i), wordTo(i)))
        lead(k) == RowWidth(SubSeq(row(k), 1, FirstNB(row(k)) - 1))
        upTo(k) == RowWidth(SubSeq(row(k), 1, LastNB(row(k))))
        slack == IF \E i \in DOMAIN T : Blank(T[i]) /\ T[i].w > 1 THEN 1 ELSE 0      \* a wide blank may not fit any more
        broken(k) == k < Len(full) /\ gap(k) = <<>>
        first(k) == wordFrom(from(k))                                                \* where the first word of the row starts
    IN  IF R = <<>> THEN "no row"
        ELSE IF \E i \in DOMAIN R : RowWidth(R[i]) > W THEN "row wider than the area"
        ELSE IF Len(shown) # Len(nb) THEN "characters lost or doubled"
        ELSE IF \E i \in DOMAIN nb : ~Shows(T[nb[i]], shown[i].s) THEN "characters changed"
        ELSE IF \E k \in F : LET v == vis(from(k), to(k))  m == SubSeq(row(k), FirstNB(row(k)), LastNB(row(k))) IN
                             Len(v) # Len(m) \/ \E i \in DOMAIN v : ~Shows(v[i], m[i].s) THEN "blanks inside of a row changed"
        ELSE IF \E k \in 0 .. Len(full) : ~SubSequence(Syms(blanksIn(k)), Syms(Visible(gap(k)))) THEN "blanks made up"
        ELSE IF trim /\ \E i \in DOMAIN R : R[i] # <<>> /\ Blank(R[i][1]) THEN "row begins with a blank"
        ELSE IF ~trim /\ F # {} /\ full[1] = 1 /\ lead(1) # WidthOf(Visible(gap(0))) THEN "indentation lost"
        ELSE IF trim /\ F # {} /\ \E i \in 1 .. full[Len(full)] : FirstNB(R[i]) = 0 THEN "empty row"
        ELSE IF trim /\ F = {} /\ Len(R) # 1 THEN "empty rows"
        ELSE IF trim /\ F # {} /\ Len(R) > full[Len(full)] THEN "empty rows at the end"
        (* a word is broken only when it does not fit into a row of its own (with the blanks it is indented by) *)
        ELSE IF \E k \in F : broken(k) /\ (first(k) # wordFrom(to(k)) \/ (from(k) = first(k) /\ lead(k) + wordWidth(to(k)) <= W))
             THEN "word broken"
        ELSE IF \E k \in F : broken(k) /\ upTo(k) + T[from(k + 1)].w <= W THEN "broken word leaves room"
        (* a row ends early only when the next word does not fit *)
        ELSE IF \E k \in F : k < Len(full) /\ gap(k) # <<>> /\ upTo(k) + WidthOf(gap(k)) + wordWidth(from(k + 1)) <= W
             THEN "row ended early"
        ELSE IF ~trim /\ \E i \in 1 .. (IF F = {} THEN 0 ELSE full[Len(full)] - 1) : FirstNB(R[i]) = 0 /\ RowWidth(R[i]) + slack < W
                          /\ ~\E k \in 0 .. Len(full) - 1 : (IF k = 0 THEN 0 ELSE full[k]) < i /\ i < full[k + 1] /\ lead(k + 1) + wordWidth(from(k + 1)) + RowWidth(R[i]) > W
             THEN "blank row ended early"
        ELSE ""

(* A text: every line starts a new row, and all rows of a line are aligned alike. Is there a way to divide the rows *)
(* among the lines? Ls: lines [cs, al], R: rows [r, at] with the column they start at.                           *)
RowsOf(R, i, j) == [k \in 1 .. j - i + 1 |-> R[i + k - 1].r]
InLine(R, i, j, al, W) == \A k \in i .. j : R[k].r = <<>> \/ R[k].at \in Margin(al, W, RowWidth(R[k].r))
RECURSIVE Divides(_, _, _, _, _, _, _)
Divides(Ls, k, R, i, W, trim, aligned) ==
    IF k > Len(Ls) THEN i > Len(R)
    ELSE \E j \in i .. Len(R) :
            /\ Why(Ls[k].cs, RowsOf(R, i, j), W, trim) = ""
            /\ (aligned => InLine(R, i, j, Ls[k].al, W))
            /\ Divides(Ls, k + 1, R, j + 1, W, trim, aligned)
(* the reason to give, for one line *)
Reason(Ls, R, W, trim) == IF Len(Ls) = 1 THEN Why(Ls[1].cs, RowsOf(R, 1, Len(R)), W, trim) ELSE ""
=============================================================================
