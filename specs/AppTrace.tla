------------------------------ MODULE AppTrace ------------------------------
(* Feeds the monitor AppObs with the events recorded from real application runs. *)
EXTENDS AppObs, TraceKit
VARIABLES l, s

Letter(v) == LET a == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
             IN a[(v % 26) + 1]

(* the screen a settled run has to show: one letter everywhere, by model version *)
Event(i, st) ==
    LET e == Trace[i] IN
    IF e.op = "settle"
    THEN e @@ [expect |-> IF e.w = 0 \/ e.h = 0 THEN "none" ELSE Letter(st.ver)]
    ELSE e

Init == l = 1 /\ s = ObsInit(0, 0)
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Event(l, s) IN
       IF e.op = "start" THEN s' = ObsInit(e.w, e.h)
       ELSE /\ LET v == Viol(s, e) IN
                 IF v = {} THEN TRUE
                 ELSE \A p \in v : Mismatch(p[1], l, e.op \o ": " \o p[2] \o (IF e.op \in {"hang", "crash"} THEN " " \o (IF e.op = "hang" THEN e.where ELSE e.msg) ELSE ""))
            /\ s' = Apply(s, e)
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
