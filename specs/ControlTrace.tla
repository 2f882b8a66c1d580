---------------------------- MODULE ControlTrace ----------------------------
(* Checks recorded operations of terminals against Control: what arrived is run through the specified terminal and      *)
(* compared with the effect of the operation. An operation that reports an error promises nothing, and ends the case.   *)
EXTENDS Control, TraceKit
VARIABLES l, t, lost     \* lost: an operation has reported an error

Op(e) == [op |-> e.op, x |-> e.x, y |-> e.y, on |-> e.on = 1]
What(e) == e.op \o (IF e.op = "pos" THEN " " \o ToString(<<e.x, e.y>>) ELSE IF e.op \in {"cursor", "paste", "alt", "raw"} THEN (IF e.on = 1 THEN " on" ELSE " off") ELSE "")
Wrong(got, want, o) ==
    IF Cells(got) # Cells(want) THEN "the screen shows " \o ToString([i \in DOMAIN got.s.c |-> got.s.c[i].s]) \o " want " \o ToString([i \in DOMAIN want.s.c |-> want.s.c[i].s])
                                     \o (IF got.alt # want.alt THEN " on the other screen" ELSE "")
    ELSE IF Modes(got) # Modes(want) THEN "cursor shown and paste mode are " \o ToString(Modes(got)) \o " want " \o ToString(Modes(want))
    ELSE IF got.line # want.line THEN "the line settings are " \o ToString(got.line) \o " want " \o ToString(want.line)
    ELSE IF o.op # "alt" /\ Spot(got) # Spot(want) THEN "the cursor is at " \o ToString(Spot(got)) \o " want " \o ToString(Spot(want))
    ELSE "attributes or something unknown is sent"
Settled(e, got) == [got EXCEPT !.line = e.line]

Frame(e) == [i \in DOMAIN e.fr |-> [s |-> e.fr[i], w |-> 1, st |-> Pen0]]
Step(e) ==
    CASE e.op = "start" -> t' = [NewControl(e.w, e.h, Garbage, e.line) EXCEPT !.s.cur = TRUE] /\ lost' = FALSE
      [] e.op = "scribble" -> t' = TokensT(t, e.ts) /\ UNCHANGED lost
      [] e.op = "settings" -> t' = [t EXCEPT !.line = e.line] /\ UNCHANGED lost
      [] e.op = "winsize" -> t' = [NewControl(e.w, e.h, Garbage, t.line) EXCEPT !.s.cur = t.s.cur, !.paste = t.paste, !.was = t.was] /\ UNCHANGED lost
      [] e.op = "size" -> Chk("S05", l, lost \/ (e.err = 0 /\ e.got = IF e.tty = 1 THEN <<t.s.w, t.s.h, 1>> ELSE <<0, 0, 0>>), "size: " \o ToString(e.got)) /\ UNCHANGED <<t, lost>>
      [] e.op = "read" -> Chk("S05", l, e.got = e.want, "read " \o ToString(e.got) \o " of " \o ToString(e.want)) /\ UNCHANGED <<t, lost>>
      [] e.op = "self" -> Chk("S05", l, e.got = <<1, 1, 1>>, "input, output, viewport: " \o ToString(e.got)) /\ UNCHANGED <<t, lost>>
      [] e.op = "draw" ->
            \E got \in {IF lost \/ e.err = 1 THEN t ELSE TokensT(t, e.ts)} :
                /\ IF lost \/ e.err = 1 THEN TRUE
                   ELSE /\ Chk("S05", l, WrongChar(got.s, <<0, 0, t.s.w, t.s.h>>, Frame(e)) = {}, "draw reports no error, and the frame is not there")
                        /\ Chk("S05", l, ~got.s.cur, "draw reports no error, and the cursor is visible")
                /\ t' = got /\ lost' = (lost \/ e.err = 1)
      [] OTHER ->
            \E o \in {Op(e)} : \E want \in {Effect(t, o)} :
            \E got \in {IF lost \/ e.err = 1 THEN want ELSE Settled(e, TokensT(t, e.ts))} :
                /\ Chk("S05", l, lost \/ e.err = 1 \/ (Same(got, want, o) /\ ~got.s.odd), What(e) \o ": " \o Wrong(got, want, o))
                /\ Chk("S05", l, e.err = 0 \/ e.faulty = 1, What(e) \o ": an error without a reason")
                /\ t' = [got EXCEPT !.was = want.was]
                /\ lost' = (lost \/ e.err = 1)

Init == l = 1 /\ t = NewControl(0, 0, Blank, 0) /\ lost = FALSE
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN Mismatch("S05", l, e.op \o ": " \o e.fail) /\ UNCHANGED <<t, lost>>
             ELSE Step(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, t, lost>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
