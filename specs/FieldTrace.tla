----------------------------- MODULE FieldTrace -----------------------------
(* Text inputs of the real code against Field. After every step every input there is (they are copied, too) tells its text and what is before *)
(* its cursor. Of a rendering, where the window begins is not told: offs are the places where it may begin, by what was shown.                *)
EXTENDS Block, Field
VARIABLES l, ins
vars == <<l, ins>>

Join(gs) == Fold(LAMBDA s, g : s \o g.s, "", gs)
Fresh == [t |-> New, offs |-> {0}, show |-> TRUE]
Bad(e, I) == {i \in DOMAIN I : e.states[i] # <<Join(I[i].t.gs), Join(First(I[i].t.gs, I[i].t.c))>>}
Told(e, I) ==
    IF Len(e.states) # Len(I) THEN Mismatch("W03", l, "inputs missing")
    ELSE \A B \in {Bad(e, I)} : IF B = {} THEN TRUE
         ELSE LET i == CHOOSE i \in B : TRUE IN
              Mismatch("W03", l, e.op \o ": input " \o ToString(i) \o " has text and text before the cursor " \o ToString(e.states[i]) \o " instead of "
                                 \o ToString(<<Join(I[i].t.gs), Join(First(I[i].t.gs, I[i].t.c))>>))
(* word movements: where to is not specified, but nothing else changes and the direction is kept *)
Where(e, t, back) ==
    LET at == {n \in 0 .. Len(t.gs) : Join(First(t.gs, n)) = e.states[e.i][2]} IN
    IF at = {} THEN t.c ELSE LET n == CHOOSE n \in at : TRUE IN IF back THEN Min(n, t.c) ELSE Max(n, t.c)
After(e, t) ==
    CASE e.op = "type" -> Type(t, e.gs)
      [] e.op = "left" -> Move(t, -1)
      [] e.op = "right" -> Move(t, 1)
      [] e.op = "begin" -> ToBegin(t)
      [] e.op = "end" -> ToEnd(t)
      [] e.op = "back" -> Back(t)
      [] e.op = "word" -> WordBack(t)
      [] e.op = "clear" -> Clear
      [] e.op = "wleft" -> [t EXCEPT !.c = Where(e, t, TRUE)]
      [] e.op = "wright" -> [t EXCEPT !.c = Where(e, t, FALSE)]
      [] OTHER -> t
NextOffs(e, o) == IF e.op = "begin" THEN o \cup {0} ELSE IF e.op = "clear" THEN o \cup {0} ELSE o
EditStep(e) ==
    \E I \in {[ins EXCEPT ![e.i].t = After(e, @), ![e.i].offs = NextOffs(e, @), ![e.i].show = IF e.op = "show" THEN e.n = 1 ELSE @]} :
        /\ ins' = I
        /\ Told(e, I)
        /\ IF e.via = 1 THEN Chk("W03", l, (e.ok = 1) = (e.op # "other"), "key of " \o e.op \o (IF e.ok = 1 THEN " taken" ELSE " not taken")) ELSE TRUE
NewStep(e) == ins' = <<Fresh>> /\ Told(e, <<Fresh>>)
CopyStep(e) == \E I \in {Append(ins, ins[e.i])} : ins' = I /\ Told(e, I)

(* ---- rendering. The characters of the row: the prompt, the text of the window, with the grapheme at the cursor, or the blank after the text, *)
(* in the cursor's style; without text, the placeholder, whose first grapheme is at the cursor.                                               *)
Cur(I, st, own) == IF I.show THEN Patched(own, st) ELSE own
AtCursor(I, gs, st, own) == Chars(IF gs = <<>> \/ gs[1].s = "" THEN (IF I.show THEN <<[s |-> " ", w |-> 1]>> ELSE <<>>) ELSE gs, Cur(I, st, own), FALSE)
RowOf(e, I, w) ==
    LET p == Chars(e.prompt, Sty(e.promptst), FALSE)  t == I.t IN
    IF t.gs = <<>> THEN p \o AtCursor(I, First(e.ph, Min(1, Len(e.ph))), Sty(e.curst), IF e.ph = <<>> THEN NoStyle ELSE Sty(e.phst)) \o Chars(From(e.ph, Min(1, Len(e.ph))), Sty(e.phst), FALSE)
    ELSE p \o Chars(SubSeq(t.gs, w[1] + 1, Min(t.c, w[2])), NoStyle, FALSE)
           \o AtCursor(I, IF t.c < w[2] THEN <<t.gs[t.c + 1]>> ELSE <<>>, Sty(e.curst), NoStyle)
           \o Chars(SubSeq(t.gs, t.c + 2, w[2]), NoStyle, FALSE)
RowAt(e, in) == IF e.v \in {0, 1} \/ in[4] = 0 THEN {0} ELSE IF e.v = 3 THEN {in[4] - 1} ELSE {(in[4] - 1) \div 2, in[4] \div 2}
Allowed(O, c) == O = {} \/ c \in O
RenderStep(e) ==
    \E I \in {ins[e.i]} : \E b \in {BlockIn(e.blk)} : \E vis \in {Inter(e.area, e.barea)} : \E in \in {InnerOf(b, vis)} :
    \E ts \in {IF Empty(vis) THEN <<>> ELSE Titles(b, vis)} : \E K \in {in[3] - WidthOf(Visible(Chars(e.prompt, NoStyle, FALSE))) - 1} :
    \E bl \in {[p \in Xs(vis) \X Ys(vis) |-> PutBlock({Old(e)}, p[1], p[2], b, vis, ts)]} :
    (* where nothing of the text has room anything may be shown of it, and where the window begins afterwards is open *)
    LET t == I.t
        tight == Empty(in) \/ K < 0 \/ (t.c < Len(t.gs) /\ t.gs[t.c + 1].w > K)
        wins == IF t.gs = <<>> THEN {<<0, 0>>} ELSE UNION {Windows(t, o, K) : o \in I.offs}
        fits(w) == \A cs \in {Visible(RowOf(e, I, w))} : \E y \in RowAt(e, in) :
                     \A pl \in {Placed(in[1], in[2] + y, in[3], cs, NoStyle, e.al, NoStyle)} :
                       \A p \in Xs(vis) \X Ys(vis) : Allowed(IF Contains(in, p) THEN PutLine(bl[p], p[1], p[2], pl) ELSE bl[p], Now(e, p[1], p[2]))
    IN  /\ Told(e, ins)
        /\ Stray(e, l, vis, "W03")
        /\ IF tight
           THEN /\ ins' = [ins EXCEPT ![e.i].offs = 0 .. Len(t.gs)]
                /\ \A B \in {{p \in Xs(vis) \X Ys(vis) : ~Contains(in, p) /\ ~Allowed(bl[p], Now(e, p[1], p[2]))}} :
                     IF B = {} THEN TRUE ELSE Mismatch("W03", l, "render: the block around is not drawn")
           ELSE \E ok \in {{w \in wins : fits(w)}} :
                /\ ins' = [ins EXCEPT ![e.i].offs = IF t.gs = <<>> THEN @ \cup {0} ELSE {w[1] : w \in (IF ok = {} THEN wins ELSE ok)}]
                /\ IF ok # {} THEN TRUE
                   ELSE Mismatch("W03", l, "render: shows " \o ToString([y \in Ys(vis) |-> [x \in Xs(vis) |-> Sym(e, x, y)]]) \o " for " \o Join(First(t.gs, t.c)) \o "|" \o Join(From(t.gs, t.c))
                                           \o " windows " \o ToString(wins))

Init == l = 1 /\ ins = <<>>
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN /\ Mismatch("W03", l, e.op \o ": " \o e.fail)
                                 /\ IF e.op = "render" THEN Mismatch("W01", l, e.op \o ": " \o e.fail) ELSE TRUE
                                 /\ UNCHANGED ins
             ELSE CASE e.op = "new" -> NewStep(e)
                    [] e.op = "copy" -> CopyStep(e)
                    [] e.op = "render" -> RenderStep(e)
                    [] OTHER -> EditStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
