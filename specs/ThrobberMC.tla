----------------------------- MODULE ThrobberMC -----------------------------
(* Throbbers as an application runs them: commands that have been asked for and not yet ended, messages that exist and may be delivered *)
(* to any throbber any number of times, one command per period. No delivery of strays makes a throbber faster than one frame for each    *)
(* period since its start, and each tick moves it once at most.                                                                            *)
EXTENDS Throbber, FiniteSets, TLC
CONSTANTS N, MAXT, STARTS, BUG
VARIABLES st, msgs, cmds, log, starts, time
vars == <<st, msgs, cmds, log, starts, time>>
Is == 1 .. N
Init == /\ st = [i \in Is |-> Start]
        /\ msgs = {}                             \* ticks that have come; none is ever used up
        /\ cmds = {}                             \* <<the tick it will bring, when>>
        /\ log = [i \in Is |-> <<>>]             \* the ticks that moved it
        /\ starts = [i \in Is |-> 0]
        /\ time = 0
(* the application starts a throbber, maybe more than once: the tick comes at once *)
Begin(i) == starts[i] < STARTS /\ starts' = [starts EXCEPT ![i] = @ + 1] /\ msgs' = msgs \cup {TickOf(i, st[i])} /\ UNCHANGED <<st, cmds, log, time>>
Moves(i, m) == CASE BUG = "wild" -> m.id = i /\ (m.tag = 0 \/ m.tag = st[i].tag)
                 [] BUG = "foreign" -> m.tag = st[i].tag
                 [] BUG = "old" -> m.id = i
                 [] OTHER -> Accepts(i, st[i], m)
Arrive(i, m) ==
    /\ Len(log[i]) < MAXT + 1
    /\ IF Moves(i, m)
       THEN /\ st' = [st EXCEPT ![i] = Advance(@)]
            /\ log' = [log EXCEPT ![i] = Append(@, m)]
            /\ cmds' = cmds \cup {<<TickOf(i, Advance(st[i])), time + 1>>}
       ELSE UNCHANGED <<st, log, cmds>>
    /\ UNCHANGED <<msgs, starts, time>>
(* a command ends when its period is over *)
End(c) == c[2] <= time /\ cmds' = cmds \ {c} /\ msgs' = msgs \cup {c[1]} /\ UNCHANGED <<st, log, starts, time>>
Pass == time < MAXT /\ time' = time + 1 /\ UNCHANGED <<st, msgs, cmds, log, starts>>
Next == (\E i \in Is : Begin(i)) \/ (\E i \in Is, m \in msgs : Arrive(i, m)) \/ (\E c \in cmds : End(c)) \/ Pass
Spec == Init /\ [][Next]_vars

Range(q) == {q[k] : k \in DOMAIN q}
OwnOnly == \A i \in Is : \A m \in Range(log[i]) : m.id = i
Once == \A i \in Is : Cardinality(Range(log[i])) = Len(log[i])
OneFrameEach == \A i \in Is : st[i].frame = Len(log[i])
(* one frame per period, and one more for each time the application started it itself *)
NotFaster == \A i \in Is : st[i].frame <= time + starts[i]
(* at most one of the ticks under way can move it *)
OneAhead == \A i \in Is : Cardinality({m \in msgs \cup {c[1] : c \in cmds} : Accepts(i, st[i], m)}) <= 1
(* it goes on: a throbber that moved has its next tick under way *)
Running == \A i \in Is : st[i].frame > 0 => \E m \in msgs \cup {c[1] : c \in cmds} : Accepts(i, st[i], m)
=============================================================================
