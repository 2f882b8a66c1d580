----------------------------- MODULE InputTrace -----------------------------
(* Checks recorded reads and messages against Input: the actions of InputReader with what the real decoder   *)
(* reported instead of what the design reports. The messages of a burst are compared once it is settled.     *)
EXTENDS Input, TraceKit
VARIABLES l, pend, got      \* pend: bytes whose messages are still open; got: the messages reported for them


Core(m) == [k |-> m.k, s |-> m.s, alt |-> m.alt, n |-> m.n]
MapMsgs(ms) == [i \in DOMAIN ms |-> Core(ms[i])]

AltText == <<97, 108, 116, 43>>
(* the text of a message, for programs that compare keys by name *)
TextOk(m) ==
    CASE m.k = "key" -> m.t = (IF m.alt = 1 THEN "alt+" ELSE "") \o (IF m.s = "space" THEN " " ELSE m.s)
      [] m.k = "runes" -> m.tn = (IF m.alt = 1 THEN AltText ELSE <<>>) \o m.n
      [] m.k = "paste" -> m.tn = <<91>> \o m.n \o <<93>>
      [] m.k = "mouse" -> IF m.n[3] \in 0 .. Len(ButtonName) /\ m.n[4] \in 0 .. 2 THEN m.t = MouseName(m.n) ELSE FALSE
      [] OTHER -> TRUE

Payload == {"mouse", "focus", "blur", "paste"}
IsReport(m) == m.k \in Payload
NoReport(m) == m.k \notin Payload
Sel(q, T(_)) == SelectSeq(q, T)

(* Which property a difference belongs to: reports (I03), bursts that span reads (I02), everything else (I01). *)
RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i ELSE FirstDiff(a, b, i + 1)
Differ(e, want, have, spans) ==
    LET i == FirstDiff(want, have, 1)
        w == IF i <= Len(want) THEN ToString(want[i]) ELSE "nothing"
        h == IF i <= Len(have) THEN ToString(have[i]) ELSE "nothing"
        why == "message " \o ToString(i) \o ": got " \o h \o " want " \o w
        report == Sel(want, IsReport) # Sel(have, IsReport)
        rest == Sel(want, NoReport) # Sel(have, NoReport)
    IN  /\ (spans => Mismatch("I02", l, why))
        /\ (report => Mismatch("I03", l, why))
        /\ ((rest \/ ~(report \/ spans)) => Mismatch("I01", l, why))

Texts(e) == \A i \in DOMAIN e.msgs : IF TextOk(e.msgs[i]) THEN TRUE
                                     ELSE Mismatch(IF IsReport(e.msgs[i]) THEN "I03" ELSE "I01", l, "text of " \o ToString(e.msgs[i]))

(* A lot of the same: before, rep times unit, after. What the unit stands for is there twice if the stream has it    *)
(* twice; and what is there twice then is there rep times in the whole stream: as text inside of one message (trep), *)
(* or as messages (rep), for which the events are folded accordingly.                                                *)
Bulk(e) ==
    \E want \in {Messages(e.before \o e.unit \o e.unit \o e.after)}, have \in {MapMsgs(e.msgs)} :
    /\ Texts(e)
    /\ IF e.fail # "" THEN (\A p \in {"I01", "I02", "I03"} : Mismatch(p, l, e.fail)) ELSE TRUE
    /\ Chk("I02", l, e.ret = 1, "the error of the input is not passed on")
    /\ IF want = have THEN TRUE ELSE Differ(e, want, have, FALSE)
    /\ \A i \in DOMAIN e.msgs :
          LET m == e.msgs[i] IN
          Chk(IF IsReport(m) THEN "I03" ELSE "I01", l, (m.rep = 1 /\ m.trep = 0) \/ m.rep = e.rep \/ m.trep = e.rep,
              "of " \o ToString(e.rep) \o " there are " \o ToString(m.rep) \o ", " \o ToString(m.trep) \o " times " \o ToString(m.n))
    /\ Chk("I01", l, e.rep < 3 \/ \E i \in DOMAIN e.msgs : e.msgs[i].rep = e.rep \/ e.msgs[i].trep = e.rep, "what was sent often is not there")

Init == l = 1 /\ pend = <<>> /\ got = <<>>
(* \E x \in {v} rather than LET x == v: TLC then evaluates v once. *)
Next ==
    /\ l <= Len(Trace)
    /\ \E e \in {Trace[l]} :
       IF e.op = "hang" THEN Mismatch("I01", l, e.fail) /\ pend' = <<>> /\ got' = <<>>
       ELSE IF e.op = "bulk" THEN Bulk(e) /\ pend' = <<>> /\ got' = <<>>
       ELSE
       \E p0 \in {IF e.c = 1 THEN <<>> ELSE pend}, g0 \in {IF e.c = 1 THEN <<>> ELSE got} :
       \E all \in {p0 \o e.b}, have \in {g0 \o MapMsgs(e.msgs)} :
          /\ Texts(e)
          /\ IF e.fail # "" THEN (\A p \in {"I01", "I02", "I03"} : Mismatch(p, l, e.fail)) ELSE TRUE
          /\ Chk("I02", l, e.ret = 1, "the error of the input is not passed on")
          /\ IF e.fail # "" THEN pend' = <<>> /\ got' = <<>>
             ELSE IF e.op = "read" /\ e.full = 1
             THEN pend' = all /\ got' = have          \* ReadFull
             ELSE \E d \in {Decode(all)}, last \in {e.op = "end"} :
                  \E want \in {d.out \o (IF last /\ d.rest # <<>> THEN <<One(d.rest, 1).m>> ELSE <<>>)} :
                     /\ IF want = have THEN TRUE ELSE Differ(e, want, have, p0 # <<>> \/ last)
                     /\ pend' = IF last THEN <<>> ELSE d.rest   \* ReadShort, End
                     /\ got' = <<>>
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, pend, got>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Done(Len(Trace))
=============================================================================
