------------------------------- MODULE WrapMC -------------------------------
(* Exhaustive check of the rules of Wrap for all short lines: a plain greedy wrapper obeys them, and with trimming *)
(* they leave no other way to divide the words into rows. Controls: wrappers that do something else are noticed.    *)
EXTENDS Wrap, FiniteSets
CONSTANTS MAXLEN, MAXW, BUG
VARIABLES t, done

G == {[s |-> "a", w |-> 1], [s |-> "W", w |-> 2], [s |-> " ", w |-> 1], [s |-> "<200b>", w |-> 0]}
Init == t = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(t) < MAXLEN /\ \E g \in G : t' = Append(t, g) /\ done' = FALSE
        \/ ~done /\ t # <<>> /\ done' = TRUE /\ t' = t
Spec == Init /\ [][Next]_<<t, done>>
Line == [i \in DOMAIN t |-> [s |-> t[i].s, w |-> t[i].w, ss |-> <<t[i].s>>]]
Fit(W) == SelectSeq(Line, LAMBDA c : c.w <= W)

(* blanks and the word after them; the last word may be empty *)
RECURSIVE Tokens(_, _, _)
Tokens(T, b, w) ==
    IF T = <<>> THEN <<[b |-> b, w |-> w]>>
    ELSE LET c == Head(T) IN
         IF Blank(c) THEN (IF w = <<>> THEN Tokens(Tail(T), Append(b, c), w) ELSE <<[b |-> b, w |-> w]>> \o Tokens(Tail(T), <<c>>, <<>>))
         ELSE Tokens(Tail(T), b, Append(w, c))
Chunks(q, W) == Fold(LAMBDA acc, c : IF RowWidth(acc[Len(acc)]) + c.w <= W THEN [acc EXCEPT ![Len(acc)] = Append(@, c)] ELSE Append(acc, <<c>>), <<<<>>>>, q)
Greedy(T, W, trim) ==
    LET put(acc, k) ==
            LET cur == acc[Len(acc)]
                b == Visible(k.b)
                lead == IF Len(acc) = 1 /\ cur = <<>> THEN (IF trim THEN <<>> ELSE b) ELSE b
                firstOne == Len(acc) = 1 /\ cur = <<>>
            IN  IF k.w = <<>> THEN (IF trim THEN acc ELSE [acc EXCEPT ![Len(acc)] = Chunks(cur \o b, W)[1]])
                ELSE IF RowWidth(cur) + RowWidth(lead) + RowWidth(k.w) <= (IF BUG = "wide" THEN W + 1 ELSE W) /\ (BUG # "lazy" \/ firstOne)
                     THEN [acc EXCEPT ![Len(acc)] = @ \o lead \o k.w]
                ELSE IF BUG = "hard" THEN SubSeq(acc, 1, Len(acc) - 1) \o Chunks(cur \o lead \o k.w, W)
                ELSE IF firstOne THEN Chunks(lead \o k.w, W)
                ELSE acc \o Chunks(IF BUG = "lose" THEN Tail(k.w) ELSE k.w, W)
    IN  Fold(put, <<<<>>>>, Tokens(T, <<>>, <<>>))

Obeys == done => \A W \in 1 .. MAXW : \A trim \in BOOLEAN : \A T \in {Fit(W)} : Why(T, Greedy(T, W, trim), W, trim) = ""

(* all ways to cut the line: after the characters of B; with trimming the blanks around the cuts go *)
RECURSIVE Trimmed(_)
Trimmed(r) == IF r = <<>> THEN r ELSE IF Blank(Head(r)) THEN Trimmed(Tail(r)) ELSE IF Blank(r[Len(r)]) THEN Trimmed(SubSeq(r, 1, Len(r) - 1)) ELSE r
Cut(T, B) == Fold(LAMBDA acc, i : LET a == [acc EXCEPT ![Len(acc)] = Append(@, T[i])] IN IF i \in B THEN Append(a, <<>>) ELSE a, <<<<>>>>, [i \in DOMAIN T |-> i])
Words(R) == [i \in DOMAIN R |-> NonBlank(R[i])]
Unique == done => \A W \in 1 .. MAXW : \A T \in {Fit(W)} : \A g \in {Greedy(T, W, TRUE)} :
             \A B \in SUBSET (1 .. Len(T) - 1) : \A R \in {[i \in DOMAIN Cut(T, B) |-> Visible(Trimmed(Cut(T, B)[i]))]} :
                 Why(T, R, W, TRUE) = "" => (Words(R) = Words(g) \/ Words(R) = Append(Words(g), <<>>))
=============================================================================
