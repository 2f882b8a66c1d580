------------------------------ MODULE NamesMC ------------------------------
(* Names identify what they name: all named keys, short runs of characters, all mouse events. *)
EXTENDS Names
CONSTANTS MAXN, BUG
VARIABLES key, alt, run, paste, ralt, mouse, at
vars == <<key, alt, run, paste, ralt, mouse, at>>

Name(n, a, p) == RunesName(n, a, p /\ BUG # "bare")
Some == {117, 112, 97, 32, 91, 93, 102, 49}
Runs == UNION {[1 .. n -> Some] : n \in 1 .. MAXN}
None == <<FALSE, FALSE, "up">>
M0 == [ctrl |-> FALSE, alt |-> FALSE, shift |-> FALSE, button |-> 0, action |-> 1]
Init == key = None /\ alt = FALSE /\ run = <<97>> /\ paste = FALSE /\ ralt = FALSE /\ mouse = M0 /\ at = 0
Next == /\ at = 0
        /\ \/ key' \in NamedKeys /\ alt' \in B /\ at' = 1 /\ UNCHANGED <<run, paste, ralt, mouse>>
           \/ run' \in Runs /\ paste' \in B /\ ralt' \in B /\ at' = 2 /\ UNCHANGED <<key, alt, mouse>>
           \/ mouse' \in Mice /\ at' = 3 /\ UNCHANGED <<key, alt, run, paste, ralt>>
Spec == Init /\ [][Next]_vars

(* different keys have different names, and only space has the name of a character *)
KeysDistinct == at = 1 => \A k \in NamedKeys, a \in B : NamedName(k, a) = NamedName(key, alt) => k = key /\ a = alt
KeysNotTyped == at = 1 => \A c \in Some, a \in B : NamedName(key, alt) = RunesName(<<c>>, a, FALSE) => key[3] = "space" /\ c = 32 /\ a = alt
(* what is pasted is never taken for a key *)
PastesApart == at = 2 /\ paste => /\ \A k \in NamedKeys, a \in B : NamedName(k, a) # Name(run, ralt, TRUE)
                                  /\ \A c \in Some, a \in B : RunesName(<<c>>, a, FALSE) # Name(run, ralt, TRUE)
RunsDistinct == at = 2 => \A r \in {x \in Runs : Len(x) = 1}, a \in B : Name(r, a, paste) = Name(run, ralt, paste) => r = run /\ a = ralt
(* mouse events with different buttons, modifiers or - but for the wheel - actions have different names *)
MiceDistinct == at = 3 => \A m \in Mice : EventName(m) = EventName(mouse)
                            => IF Wheel(mouse.button) THEN [m EXCEPT !.action = 0] = [mouse EXCEPT !.action = 0] ELSE m = mouse
Inv == KeysDistinct /\ KeysNotTyped /\ PastesApart /\ RunsDistinct /\ MiceDistinct
=============================================================================
