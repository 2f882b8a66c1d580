------------------------------- MODULE AppObs -------------------------------
(* What a user of the runtime may rely on (properties R01 - R05), as a monitor over observable events:       *)
(*   - calls and returns of the model's Init / Update / Render and of its commands,                          *)
(*   - what the environment does (typing, resizing, cancelling, faults, panics of callbacks),                *)
(*   - the return of Run and the state of the terminal afterwards.                                           *)
(* Viol(s, e) is the set of <<property, reason>> that event e violates in state s, Apply(s, e) the state     *)
(* afterwards. The design model App.tla emits these events and must never violate the monitor; AppTrace.tla  *)
(* feeds it with the events recorded from the real code.                                                     *)
(*                                                                                                           *)
(* A command tree is a record [k: "nil"|"leaf"|"batch"|"seq", id, r, ch]; a leaf has a unique id and a        *)
(* result r: "msg", "nil", "quit" (panicking and never-ending leaves simply do not end).                      *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Leaves(_)
Leaves(t) == IF t.k = "leaf" THEN {t.id} ELSE UNION {Leaves(t.ch[i]) : i \in DOMAIN t.ch}

(* <<a, b>>: leaf a has to finish before leaf b may start. *)
RECURSIVE Order(_)
Order(t) ==
    UNION {Order(t.ch[i]) : i \in DOMAIN t.ch}
    \cup IF t.k # "seq" THEN {}
         ELSE UNION {Leaves(t.ch[p[1]]) \X Leaves(t.ch[p[2]]) :
                     p \in {q \in (DOMAIN t.ch) \X (DOMAIN t.ch) : q[1] < q[2]}}

ObsInit(w, h) ==
    [ver |-> 0, busy |-> "new", drawn |-> FALSE, size |-> <<w, h>>, hist |-> <<<<w, h>>>>, hidx |-> 1,
     nsize |-> 0, keys |-> <<>>, want |-> {}, order |-> {}, begun |-> {}, ended |-> {}, pend |-> {},
     quits |-> {}, stops |-> {}, returned |-> FALSE, crashed |-> FALSE]

Preds(s, id) == {p[1] : p \in {q \in s.order : q[2] = id}}
Enabled(s) == {id \in s.want \ s.begun : Preds(s, id) \subseteq s.ended}
(* a message may be delivered when no earlier message of its sequence is still outstanding *)
(* (after a cancellation a result may be given up although a later one still gets through)           *)
Deliverable(s, id) == "cancel" \in s.stops \/ Preds(s, id) \cap (s.pend \cup s.quits) = {}
QuitArrived(s) == \E q \in s.quits : Deliverable(s, q)
Stopping(s) == s.stops # {} \/ QuitArrived(s)

If(c, v) == IF c THEN {v} ELSE {}

(* positions in the size history a size announcement may refer to *)
SizeIdx(s, w, h) == {j \in s.hidx .. Len(s.hist) : s.hist[j] = <<w, h>>}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

ViolMsg(s, m) ==
    CASE m.k = "key"  -> If(s.keys = <<>> \/ (s.keys # <<>> /\ Head(s.keys) # m.id),
                            <<"R03", "a key is delivered that is not the next one typed">>)
      [] m.k = "leaf" -> If(m.id \notin s.pend, <<"R03", "a command result is delivered that is not outstanding">>)
                         \cup If(m.id \in s.pend /\ ~Deliverable(s, m.id), <<"R03", "results of a sequence are delivered out of order">>)
      [] m.k = "size" -> If(SizeIdx(s, m.w, m.h) = {}, <<"R05", "an outdated or wrong window size is announced">>)
                         \cup If(s.nsize + 1 > Len(s.hist), <<"R03", "more size announcements than resizes">>)
      [] m.k = "internal" -> {}
      [] m.k = "nil"  -> {<<"R03", "a nil message is delivered">>}
      [] m.k = "quit" -> {<<"R03", "the quit message is delivered">>}
      [] OTHER        -> {<<"R03", "a message is delivered that nothing produced">>}

ViolPending(s) ==   \* what must not be outstanding when the application is at rest
    If(s.keys # <<>>, <<"R03", "typed keys are never delivered">>)
    \cup If({id \in s.pend : Deliverable(s, id)} # {}, <<"R03", "a command result is never delivered">>)
    \cup If(Enabled(s) # {}, <<"R04", "a command is never started">>)

Viol(s, e) ==
    CASE e.op = "init_b" -> If(s.busy # "new", <<"R03", "initialised twice or late">>)
      [] e.op = "init_e" -> {}
      [] e.op = "rend_b" ->
            If(s.busy \notin {"idle", "down"}, <<"R03", "rendering overlaps another callback">>)
            \cup If(s.returned, <<"R05", "rendering after the run ended">>)
            \cup If(e.ver # s.ver, <<"R05", "a model other than the current one is rendered">>)
            \cup If(<<e.x, e.y, e.w, e.h>> # <<0, 0, s.size[1], s.size[2]>>, <<"R05", "rendered into an area that is not the announced terminal size">>)
      [] e.op = "rend_e" -> {}
      [] e.op = "upd_b" ->
            If(s.busy # "idle", <<"R03", "update overlaps another callback">>)
            \cup If(s.returned, <<"R03", "update after the run ended">>)
            \cup If(e.ver # s.ver, <<"R03", "update of a model other than the current one">>)
            \cup If(~s.drawn, <<"R05", "an update follows before the previous model was rendered">>)
            \cup ViolMsg(s, e.m)
      [] e.op = "upd_e" -> {}
      [] e.op = "cmd_b" ->
            If(e.id \notin s.want, <<"R04", "a command is started that was not returned by the model">>)
            \cup If("early" \in DOMAIN e /\ e.early = 1, <<"R04", "a command of Tick calls its function too early">>)
            \cup If(e.id \in s.begun, <<"R04", "a command is started twice">>)
            \cup If(e.id \in s.want \ s.begun /\ ~(Preds(s, e.id) \subseteq s.ended), <<"R04", "a command is started before its predecessors in the sequence have finished">>)
      [] e.op = "cmd_e" -> {}
      [] e.op = "settle" ->
            IF s.returned \/ s.crashed \/ Stopping(s) THEN {}
            ELSE ViolPending(s)
                 \cup If(s.busy # "idle", <<"R02", "a callback has not returned">>)
                 \cup If(s.busy = "idle" /\ ~s.drawn, <<"R05", "the last model is never rendered">>)
                 \cup If(s.size # s.hist[Len(s.hist)], <<"R05", "the current window size is never announced">>)
                 \cup If(e.ch # e.expect, <<"R05", "the terminal does not show the last rendering">>)
                 \cup If(e.alt = 0, <<"R05", "the application does not run on the alternate screen">>)
      [] e.op = "ret" ->
            If(s.busy \notin {"idle", "down"}, <<"R03", "the run ends during a callback">>)
            \cup If(s.stops = {} /\ ~QuitArrived(s), <<"R05", "the run ends without a reason">>)
            \cup If(e.err = "nil" /\ ~QuitArrived(s) /\ s.stops # {}, <<"R05", "the run ends without error although it was not quit">>)
            \cup If(e.err = "killed" /\ "cancel" \notin s.stops /\ "panic" \notin s.stops, <<"R05", "killed although nothing was cancelled">>)
            \cup If(e.err = "other" /\ s.stops \cap {"panic", "fault"} = {}, <<"R05", "an error although nothing failed">>)
            \cup If(e.err = "nil" /\ ~s.drawn, <<"R05", "quit before the last model was rendered">>)
            \cup If(e.err \in {"nil", "killed"} /\ s.busy # "down" /\ e.ver # s.ver /\ s.stops \cap {"panic", "fault"} = {},
                    <<"R05", "the returned model is not the last one">>)
      [] e.op = "hang" ->
            IF Stopping(s) THEN {<<"R02", "running the application does not end">>}
            ELSE LET p == ViolPending(s) IN IF p # {} THEN p ELSE {<<"R02", "the application is stuck">>}
      [] e.op = "crash" -> {<<"R01", "the process is taken down">>}
      [] e.op = "term" ->
            IF ~s.returned /\ ~s.crashed THEN {}
            ELSE If(e.same = 0, <<"R01", "the line settings of the terminal are not restored">>)
                 \cup If(e.gone = 0 /\ e.alt = 1, <<"R01", "the alternate screen is not left">>)
                 \cup If(e.gone = 0 /\ e.cur = 0, <<"R01", "the cursor stays hidden">>)
                 \cup If(e.gone = 0 /\ e.paste = 1, <<"R01", "bracketed paste stays on">>)
      [] e.op = "late" ->
            If(e.bytes # 0, <<"R01", "output is written after the run ended">>)
            \cup If(e.alive = 0, <<"R01", "a leftover command takes the process down">>)
      [] e.op = "readback" -> If(e.ok = 0, <<"R01", "input typed after the run ended is swallowed">>)
      [] OTHER -> {}

Want(s, t) == [s EXCEPT !.want = @ \cup Leaves(t), !.order = @ \cup Order(t)]

ApplyMsg(s, m) ==
    CASE m.k = "key" /\ s.keys # <<>> -> [s EXCEPT !.keys = Tail(@)]
      [] m.k = "leaf" -> [s EXCEPT !.pend = @ \ {m.id}]
      [] m.k = "size" -> [s EXCEPT !.size = <<m.w, m.h>>, !.nsize = @ + 1,
                                   !.hidx = IF SizeIdx(s, m.w, m.h) = {} THEN @ ELSE MinOf(SizeIdx(s, m.w, m.h))]
      [] OTHER -> s

Apply(s, e) ==
    CASE e.op = "init_b" -> [s EXCEPT !.busy = "init"]
      [] e.op = "init_e" -> [Want(s, e.tree) EXCEPT !.busy = "idle"]
      [] e.op = "rend_b" -> [s EXCEPT !.busy = "render"]
      [] e.op = "rend_e" -> [s EXCEPT !.busy = "idle", !.drawn = TRUE]
      [] e.op = "upd_b" -> [ApplyMsg(s, e.m) EXCEPT !.busy = "update"]
      [] e.op = "upd_e" -> [Want(s, e.tree) EXCEPT !.busy = "idle", !.drawn = FALSE, !.ver = e.ver]
      [] e.op = "cmd_b" -> [s EXCEPT !.begun = @ \cup {e.id}]
      [] e.op = "cmd_e" -> [s EXCEPT !.ended = @ \cup {e.id},
                                     !.pend = IF e.r = "msg" THEN @ \cup {e.id} ELSE @,
                                     !.quits = IF e.r = "quit" THEN @ \cup {e.id} ELSE @]
      [] e.op = "panic" -> [s EXCEPT !.stops = IF s.returned THEN @ ELSE @ \cup {"panic"},
                                     !.busy = IF e.in = "cmd" THEN @ ELSE "down"]
      [] e.op = "key" -> [s EXCEPT !.keys = @ \o e.ks]
      [] e.op = "resize" -> [s EXCEPT !.hist = Append(@, <<e.w, e.h>>)]
      [] e.op = "cancel" -> [s EXCEPT !.stops = @ \cup {"cancel"}]
      [] e.op = "fault" -> [s EXCEPT !.stops = @ \cup {"fault"}]
      [] e.op = "ret" -> [s EXCEPT !.returned = TRUE]
      [] e.op = "crash" -> [s EXCEPT !.crashed = TRUE]
      [] OTHER -> s
=============================================================================
