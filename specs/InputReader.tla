---------------------------- MODULE InputReader ----------------------------
(* How the input goroutine reads: a read that fills the buffer may end anywhere, so what further bytes could *)
(* complete is held back; a shorter read ends between two keys. The design is right when the messages of a   *)
(* burst are those of the burst read at once, whatever the size of the buffer (B).                           *)
EXTENDS Input
CONSTANTS B,         \* size of the read buffer
          HoldEsc,   \* hold back incomplete escape sequences   (FALSE: a defect)
          HoldRune,  \* hold back incomplete characters         (FALSE: a defect)
          HoldRun    \* hold back a run that ends the buffer    (FALSE: a defect)

IsPrefix(p, q) == Len(p) < Len(q) /\ p = SubSeq(q, 1, Len(p))
Prefixes == UNION {{SubSeq(q, 1, n) : n \in 1 .. Len(q) - 1} : q \in Sequences}

(* Bytes that may follow can change the meaning of the message at i. *)
Incomplete(s, i) ==
    LET rest == SubSeq(s, i, Len(s)) IN
    \/ HoldEsc /\ (rest \in Prefixes \/ (HasAt(s, i, <<27, 91, 77>>) /\ Len(rest) < 6) \/ CsiEnd(s, i) = -1)
    \/ s[i] # ESC /\ Printable(s, i) /\ Run(s, i, <<>>).e > Len(s) /\ HoldRun
    \/ s[i] # ESC /\ HoldRune /\ ~IsControl(s[i]) /\ s[i] # 32 /\
          LET e == Run(s, i, <<>>).e IN e <= Len(s) /\ ~IsControl(s[e]) /\ Rune(s, e).w = -1
    \/ s[i] = ESC /\ i < Len(s) /\ Rune(s, i + 1).w = -1 /\ HoldRune

RECURSIVE Step(_, _, _)
(* decode from i while more bytes may come *)
Step(s, i, acc) ==
    IF i > Len(s) THEN [out |-> acc, rest |-> <<>>]
    ELSE IF Incomplete(s, i) THEN [out |-> acc, rest |-> SubSeq(s, i, Len(s))]
    ELSE LET o == One(s, i) IN
         IF o.w = 0 THEN [out |-> acc, rest |-> SubSeq(s, i, Len(s))] ELSE Step(s, i + o.w, Append(acc, o.m))

VARIABLES all,    \* the burst so far (history)
          left,   \* held back
          out,    \* messages of the burst
          phase   \* "reading", "settled" (a short read), "ended" (end of the stream)
vars == <<all, left, out, phase>>

Init == all = <<>> /\ left = <<>> /\ out = <<>> /\ phase = "reading"

(* the buffer is filled *)
ReadFull(s) == LET d == Step(left \o s, 1, out) IN
    /\ all' = all \o s /\ left' = d.rest /\ out' = d.out /\ phase' = "reading"
(* fewer bytes than the buffer takes *)
ReadShort(s) == LET d == From(left \o s, 1, out) IN
    /\ all' = all \o s /\ left' = d.rest /\ out' = d.out /\ phase' = "settled"
(* the stream ends, with or without data *)
End(s) == LET d == From(left \o s, 1, out) IN
    /\ all' = all \o s /\ left' = <<>> /\ phase' = "ended"
    /\ out' = IF d.rest = <<>> THEN d.out ELSE Append(d.out, One(d.rest, 1).m)

(* ---- properties *)
(* I02: a settled burst means what it means as a whole; an open paste is all that may be held back. *)
Settled == phase = "settled" => [out |-> out, rest |-> left] = Decode(all)
(* I01: nothing is lost at the end of the stream. *)
Ended == phase = "ended" => out = Messages(all)
(* Early messages are never taken back and never depend on what follows. *)
Early == phase = "reading" => LET m == Messages(all) IN Len(out) <= Len(m) /\ \A i \in 1 .. Len(out) : out[i] = m[i]
(* Everything that is read is either reported or held back. *)
RECURSIVE WidthSum(_, _)
WidthSum(s, i) == IF i > Len(s) THEN 0 ELSE LET o == One(s, i) IN IF o.w = 0 THEN Len(s) + 1 - i ELSE o.w + WidthSum(s, i + o.w)
Accounted == WidthSum(all, 1) = Len(all)
=============================================================================
