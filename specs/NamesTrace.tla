----------------------------- MODULE NamesTrace -----------------------------
(* Checks recorded names of keys and mouse events against Names. Every event: op, what was named, t (as code *)
(* points), and v: the same through fmt, and what the event says of itself.                                  *)
EXTENDS Names, TraceKit
VARIABLE l

KeyOf(e) == <<e.ctrl = 1, e.shift = 1, e.base>>
Want(e) ==
    CASE e.op = "key" -> NamedName(KeyOf(e), e.alt = 1)
      [] e.op = "type" -> Codes(TypeName(KeyOf(e)))
      [] e.op = "runes" -> RunesName(e.n, e.alt = 1, e.paste = 1)
Event(e) == [ctrl |-> e.m[1] = 1, alt |-> e.m[2] = 1, shift |-> e.m[3] = 1, button |-> e.m[4], action |-> e.m[5]]

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E e \in {Trace[l]} :
             IF e.fail # "" THEN Mismatch("I04", l, e.fail)
             ELSE IF e.op = "mouse"
             THEN /\ ChkEq("I04", l, e.t, EventName(Event(e)), "name of a mouse event")
                  /\ ChkEq("I04", l, e.v, e.t, "printed name of a mouse event")
                  /\ Chk("I04", l, (e.wheel = 1) = Wheel(e.m[4]), "is it the wheel")
             ELSE /\ (\E w \in {Want(e)} : ChkEq("I04", l, e.t, w, "name of a key"))
                  /\ ChkEq("I04", l, e.v, e.t, "printed name of a key")
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
