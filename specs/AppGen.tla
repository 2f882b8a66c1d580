------------------------------ MODULE AppGen ------------------------------
(* Behaviours of App, as scripts for the replay driver: the observable steps in order, of which the driver     *)
(* performs those of the environment and lets callbacks and commands return in the given order.               *)
EXTENDS AppMC, Json
VARIABLE log

(* bigger programs: several commands with dependencies, answers that lead to further commands *)
P1 == <<S(<<2, 5, 6>>), B(<<3, 4>>), L("msg"), L("nil"), L("msg"), S(<<7, 8>>), L("msg"), L("msg"),
        B(<<10, 11>>), L("msg"), L("panic"), L("never"), L("quit"), L("msg"), S(<<16, 17>>), L("msg"), L("msg")>>
G(init, key, then) == Sc(P1, init, key, [n \in DOMAIN P1 |-> IF n \in DOMAIN then THEN then[n] ELSE 0])
GenScenarios ==
    {G(1, <<9, 14, 13>>, (3 :> 15)), G(1, <<13, 12, 15>>, (5 :> 14)), G(12, <<1, 15, 13>>, (7 :> 14)),
     G(15, <<1, 13, 9>>, (17 :> 14)), G(9, <<1, 15, 13>>, (10 :> 14)), G(0, <<1, 15, 13>>, (16 :> 12)),
     [G(14, <<1, 15, 13>>, (3 :> 12)) EXCEPT !.updpanic = 2], [G(1, <<14, 15, 13>>, (3 :> 12)) EXCEPT !.rendpanic = 4]}

Steps ==
    LET m == main.pc  n == main'.pc IN
    (IF m = "upd" /\ n = "upding" THEN <<[do |-> "ub", id |-> main.msg.id, k |-> main.msg.k]>> ELSE <<>>)
    \o (IF m = "upding" /\ n # "upding" THEN <<[do |-> "ue", id |-> 0, k |-> ""]>> ELSE <<>>)
    \o (IF m = "rend" /\ n = "rending" THEN <<[do |-> "rb", id |-> 0, k |-> ""]>> ELSE <<>>)
    \o (IF m = "rending" /\ n # "rending" THEN <<[do |-> "re", id |-> 0, k |-> ""]>> ELSE <<>>)
    \o (IF Len(tty') > Len(tty) THEN <<[do |-> "key", id |-> tty'[Len(tty')], k |-> ""]>> ELSE <<>>)
    \o (IF win' # win THEN <<[do |-> "resize", id |-> win'[1], k |-> ""]>> ELSE <<>>)
    \o (IF budget'.stops # budget.stops THEN <<[do |-> CHOOSE x \in budget.stops : x \notin budget'.stops, id |-> 0, k |-> ""]>> ELSE <<>>)
    \o (IF \E x \in Nodes : st[x].pc = "call" /\ st'[x].pc = "run"
        THEN <<[do |-> "cb", id |-> CHOOSE x \in Nodes : st[x].pc = "call" /\ st'[x].pc = "run", k |-> ""]>> ELSE <<>>)
    \o (IF \E x \in Nodes : st[x].pc = "run" /\ st'[x].pc # "run"
        THEN <<[do |-> "ce", id |-> CHOOSE x \in Nodes : st[x].pc = "run" /\ st'[x].pc # "run", k |-> ""]>> ELSE <<>>)

Script == [steps |-> log, init |-> Tree(sc.init), keys |-> [i \in DOMAIN sc.key |-> Tree(sc.key[i])],
           then |-> [n \in DOMAIN sc.then |-> Tree(sc.then[n])], updpanic |-> sc.updpanic, rendpanic |-> sc.rendpanic]

(* Left to itself, simulation would let the environment strike at once: it mostly waits. *)
Rarely(n) == RandomElement(1 .. n) = 1
GInit == Init /\ log = <<>>
Step ==
    \/ Internal
    \/ (Rarely(8) \/ AtRest) /\ (Type \/ Resize)
    \/ (Rarely(70) \/ (AtRest /\ budget.keys = 0)) /\ (Cancel \/ OutputFails)
GNext ==
    IF main.pc # "ret" THEN Step /\ log' = log \o Steps
    ELSE /\ log # <<>> /\ PrintT("SCRIPT " \o ToJson(Script))
         /\ log' = <<>> /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_<<vars, log>>
=============================================================================
