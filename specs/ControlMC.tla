----------------------------- MODULE ControlMC -----------------------------
(* The sequences the design sends for every operation have that operation's effect, from every state of a small        *)
(* terminal; and the effects go together as the names promise.                                                        *)
EXTENDS Control
CONSTANTS W, H, BUG
VARIABLES t, main, ok, n, kept      \* kept: the settings the design has put aside
vars == <<t, main, ok, n, kept>>

Mode(k, on) == <<[t |-> "mode", n |-> k, on |-> on]>>
Ed(k) == <<[t |-> "ed", n |-> k]>>
El(k) == <<[t |-> "el", n |-> k]>>
Send(o) ==
    CASE o.op = "pos" -> <<[t |-> "cup", x |-> o.x, y |-> o.y]>>
      [] o.op = "cursor" -> Mode(25, o.on)
      [] o.op = "paste" -> Mode(2004, o.on)
      [] o.op = "alt" -> Mode(1049, o.on)
      [] o.op = "all" -> Ed(2)
      [] o.op = "after" -> IF BUG = "line" THEN El(0) ELSE Ed(0)
      [] o.op = "before" -> Ed(1)
      [] o.op = "line" -> El(2)
      [] o.op = "until" -> El(0)
      [] OTHER -> <<>>
Op(op, x, y, on) == [op |-> op, x |-> x, y |-> y, on |-> on]
Ops == {Op("pos", x, y, TRUE) : x \in 0 .. W, y \in 0 .. H} \cup {Op(k, 0, 0, on) : k \in {"cursor", "paste", "alt", "raw"}, on \in BOOLEAN}
       \cup {Op(k, 0, 0, TRUE) : k \in {"all", "after", "before", "line", "until"}}
(* the design keeps the settings found when raw mode was last entered; the control keeps the first ones *)
Keep(o, u) == IF o.op = "raw" /\ o.on /\ ~(BUG = "first" /\ kept # -2) THEN u.line ELSE kept
Settings(o, u) == IF o.op # "raw" THEN u ELSE [u EXCEPT !.line = IF o.on THEN -1 ELSE IF kept = -2 THEN @ ELSE kept]

A == [s |-> "A", st |-> Pen0]
Full(u) == [u EXCEPT !.s.c = [i \in DOMAIN @ |-> A]]
Init == t = Full(NewControl(W, H, Blank, 0)) /\ main = <<>> /\ ok = TRUE /\ n = 0 /\ kept = -2
Do(o) == \E got \in {Settings(o, TokensT(t, Send(o)))} : \E want \in {Effect(t, o)} :
            /\ ok' = Same(got, want, o)
            /\ t' = [got EXCEPT !.was = want.was]
            /\ kept' = Keep(o, t)
            /\ main' = IF o.op = "alt" /\ o.on /\ ~t.alt THEN t.s.c ELSE main
User == /\ \/ t' = Full(t)                               \* somebody writes all over the screen
           \/ t.line # -1 /\ t' = [t EXCEPT !.line = 1 - @]   \* or changes the line settings
        /\ UNCHANGED <<main, ok, kept>>
Next == n < 6 /\ n' = n + 1 /\ (User \/ \E o \in Ops : Do(o))
Spec == Init /\ [][Next]_vars

Sound == ok
Restores == [][t.alt /\ ~t'.alt => t'.s.c = main]_vars
After(o) == Effect(t, Op(o, 0, 0, TRUE)).s.c
(* before and after the cursor is all; until the end of the row is what is both after it and in its row *)
Goes == \A i \in DOMAIN t.s.c :
          /\ After("all")[i] = Blank
          /\ After("before")[i] = Blank \/ After("after")[i] = Blank
          /\ (After("before")[i] = Blank /\ After("after")[i] = Blank) => i = Here(t) \/ t.s.c[i] = Blank
          /\ After("until")[i] = Blank <=> (After("line")[i] = Blank /\ After("after")[i] = Blank)
=============================================================================
