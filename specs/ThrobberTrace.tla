---------------------------- MODULE ThrobberTrace ----------------------------
(* Throbbers of the real code against Throbber: who takes which message, what is asked for next, and what is shown, by all of them, after *)
(* every step. ms are all ticks there are so far, ths the throbbers, each with the id it goes by.                                         *)
EXTENDS Paint, Throbber
VARIABLES l, ths, ms
vars == <<l, ths, ms>>

New(n) == [i \in 1 .. n |-> [id |-> i, st |-> Start]]
Strip(q) == LET on == {i \in DOMAIN q : q[i] # " "} IN
            IF on = {} THEN <<>> ELSE SubSeq(q, CHOOSE i \in on : \A j \in on : i <= j, CHOOSE i \in on : \A j \in on : j <= i)
(* what every throbber shows as a meter and in dots, which tells its frame among 56 *)
Showing(e, T) ==
    \A B \in {{i \in DOMAIN T : <<Strip(e.shows[i][1]), Strip(e.shows[i][2])>> # <<Frame("meter", T[i].st.frame), Frame("braille", T[i].st.frame)>>}} :
        IF B = {} THEN TRUE
        ELSE LET i == CHOOSE i \in B : TRUE IN
             Mismatch("W07", l, e.op \o ": throbber " \o ToString(i) \o " shows " \o ToString(e.shows[i]) \o " instead of frame " \o ToString(T[i].st.frame))
NewStep(e) ==
    /\ ths' = New(e.n) /\ ms' = <<>>
    /\ Chk("W07", l, \A i, j \in 1 .. e.n : e.ids[i] > 0 /\ (i # j => e.ids[i] # e.ids[j]), "ids of new throbbers " \o ToString(e.ids))
    /\ Showing(e, New(e.n))
CopyStep(e) == ths' = Append(ths, ths[e.i]) /\ ms' = ms /\ Showing(e, Append(ths, ths[e.i]))
RunStep(e) ==                                                  \* e.n ticks, each of its own and of its time
    \E T \in {[ths EXCEPT ![e.i].st = Advanced(@, e.n)]} :
    /\ ths' = T /\ ms' = ms
    /\ ChkEq("W07", l, <<e.taken, e.asked>>, <<e.n, e.n>>, "ticks taken and asked for of " \o ToString(e.n))
    /\ Showing(e, T)
TickStep(e) ==
    \E T \in {ths[e.i]} :
    /\ ths' = ths /\ ms' = Append(ms, TickOf(T.id, T.st))
    /\ ChkEq("W07", l, e.id, T.id, "id of a tick")
    /\ Showing(e, ths)
(* e.k: which of the ticks, 0 for something else *)
UpdateStep(e) ==
    \E T \in {ths[e.i]} : \E m \in {IF e.k = 0 THEN [id |-> 0, tag |-> -1] ELSE ms[e.k]} :
    \E takes \in {Accepts(T.id, T.st, m)} : \E T2 \in {[T EXCEPT !.st = Deliver(T.id, @, m)]} :
    /\ ths' = [ths EXCEPT ![e.i] = T2]
    /\ ms' = IF e.cmd = 1 THEN Append(ms, TickOf(T2.id, T2.st)) ELSE ms
    /\ Chk("W07", l, (e.ok = 1) = takes, "message " \o e.what \o " of " \o ToString(m) \o (IF takes THEN " not taken by " ELSE " taken by ") \o ToString(T))
    /\ Chk("W07", l, (e.cmd = 1) = takes, IF takes THEN "no next tick asked for" ELSE "a next tick asked for")
    /\ Chk("W07", l, e.early = 0, "the next tick comes too early")
    /\ IF e.k = 0 \/ e.id = 0 THEN TRUE ELSE ChkEq("W07", l, e.id, m.id, "id of a tick")
    /\ Showing(e, [ths EXCEPT ![e.i] = T2])
(* a frame in an area: centred, cut where it does not fit *)
Mid(space, size) == IF size >= space THEN {0} ELSE {(space - size) \div 2, (space - size + 1) \div 2}
RenderStep(e) ==
    /\ UNCHANGED <<ths, ms>>
    /\ Showing(e, ths)
    /\ \A vis \in {Inter(e.area, e.barea)} : \A f \in {Frame(e.kind, ths[e.i].st.frame)} :
        /\ Stray(e, l, vis, "W07")
        /\ IF Empty(vis) THEN TRUE
           ELSE Chk("W07", l, \E x0 \in Mid(vis[3], Len(f)), y0 \in Mid(vis[4], 1) :
                       \A x \in Xs(vis), y \in Ys(vis) :
                         LET k == x - vis[1] - x0 + 1  o == Old(e) IN
                         Now(e, x, y) = IF y = vis[2] + y0 /\ k \in DOMAIN f THEN [o EXCEPT !.s = f[k]] ELSE o,
                    e.kind \o " frame " \o ToString(ths[e.i].st.frame) \o " in " \o ToString(vis) \o ": " \o ToString([k \in DOMAIN e.cells |-> e.cells[k][1]]))

Init == l = 1 /\ ths = <<>> /\ ms = <<>>
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN /\ Mismatch("W07", l, e.op \o ": " \o e.fail)
                                 /\ IF e.op = "render" THEN Mismatch("W01", l, e.op \o ": " \o e.fail) ELSE TRUE
                                 /\ UNCHANGED <<ths, ms>>
             ELSE CASE e.op = "new" -> NewStep(e)
                    [] e.op = "copy" -> CopyStep(e)
                    [] e.op = "run" -> RunStep(e)
                    [] e.op = "tick" -> TickStep(e)
                    [] e.op = "update" -> UpdateStep(e)
                    [] e.op = "render" -> RenderStep(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
