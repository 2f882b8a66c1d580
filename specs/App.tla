-------------------------------- MODULE App --------------------------------
(* The runtime of bento: App.Run and its goroutines, at the granularity of channel operations, callbacks and  *)
(* terminal accesses.                                                                                         *)
(*   main        Run: init, first draw, event loop, shutdown                                                  *)
(*   rd          readLoop: reads the terminal, decodes keys, sends them                                       *)
(*   rz          listenForResize: initial size, then one size per SIGWINCH (coalesced)                        *)
(*   dp          handleCommands: takes commands, starts a goroutine for each                                  *)
(*   ig          the goroutine of initModel that passes on the initial command                                *)
(*   st[n]       the goroutine that runs node n of a command tree (directly, or as part of a sequence)        *)
(* msgs, cmds and errs are unbuffered channels: a send and its receive are one step. Every blocking operation *)
(* of a goroutine may also end because the context is done.                                                   *)
(* The environment types, resizes, cancels and lets the terminal fail; callbacks take their time and may      *)
(* panic. All of it is bounded only by budgets. The monitor AppObs watches; bad collects what it objects to.  *)
(* Bugs selects deviations from the design (the ones found in the original code): controls that show that the *)
(* monitor notices them.                                                                                      *)
EXTENDS AppObs, TLC

CONSTANTS Scenarios,  \* what the model's callbacks do: command trees, panics
          Keys,       \* keys that may be typed
          MaxKeys, MaxResizes, EnvStops, Bugs

VARIABLES sc, ctx, main, rd, rz, dp, ig, st, tty, win, term, mon, bad, budget
vars == <<sc, ctx, main, rd, rz, dp, ig, st, tty, win, term, mon, bad, budget>>

Nodes == DOMAIN sc.nodes
Node(n) == sc.nodes[n]

RECURSIVE TreeOf(_, _)
TreeOf(nodes, n) ==
    IF n = 0 THEN [k |-> "nil", id |-> 0, r |-> "", ch |-> <<>>]
    ELSE [k |-> nodes[n].k, id |-> n, r |-> nodes[n].r, ch |-> [i \in DOMAIN nodes[n].ch |-> TreeOf(nodes, nodes[n].ch[i])]]
Tree(n) == TreeOf(sc.nodes, n)

Sizes == {<<2, 1>>, <<1, 1>>}

--------------------------------------------------------------------------------
(* observation *)

RECURSIVE MonAll(_, _, _)
MonAll(s, b, es) ==
    IF es = <<>> THEN <<s, b>>
    ELSE MonAll(Apply(s, Head(es)), b \cup Viol(s, Head(es)), Tail(es))

Observe(es) ==
    LET r == MonAll(mon, bad, es) IN mon' = r[1] /\ bad' = r[2]
Silent == UNCHANGED <<mon, bad>>

--------------------------------------------------------------------------------
(* main *)

Fail(e) == [main EXCEPT !.pc = "down", !.err = e]

(* writing to the terminal fails once the output is gone *)
Init0 ==
    /\ main.pc = "setup"
    /\ IF term.out THEN term' = [term EXCEPT !.raw = TRUE, !.cur = FALSE, !.alt = TRUE] /\ main' = [main EXCEPT !.pc = "init"]
       ELSE term' = [term EXCEPT !.raw = TRUE] /\ main' = Fail("other")
    /\ Silent /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, st, tty, win, budget>>

InitBegin ==
    /\ main.pc = "init"
    /\ main' = [main EXCEPT !.pc = "initing"]
    /\ Observe(<<[op |-> "init_b"]>>)
    /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, st, tty, win, term, budget>>

InitEnd ==
    /\ main.pc = "initing"
    /\ IF sc.initpanic
       THEN main' = Fail("other") /\ ig' = ig /\ Observe(<<[op |-> "panic", in |-> "init", id |-> 0]>>)
       ELSE /\ main' = [main EXCEPT !.pc = "rend", !.next = "start"]
            /\ ig' = IF sc.init = 0 THEN "none" ELSE "send"
            /\ Observe(<<[op |-> "init_e", tree |-> Tree(sc.init)]>>)
    /\ UNCHANGED <<sc, ctx, rd, rz, dp, st, tty, win, term, budget>>

RendBegin ==
    /\ main.pc = "rend"
    /\ main' = [main EXCEPT !.pc = "rending"]
    /\ Observe(<<[op |-> "rend_b", ver |-> main.ver, x |-> 0, y |-> 0, w |-> term.size[1], h |-> term.size[2]]>>)
    /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, st, tty, win, term, budget>>

RendEnd ==
    /\ main.pc = "rending"
    /\ IF sc.rendpanic = main.ver /\ sc.rendpanic > 0
       THEN main' = Fail("other") /\ term' = term /\ Observe(<<[op |-> "panic", in |-> "render", id |-> 0]>>)
       ELSE /\ Observe(<<[op |-> "rend_e"]>>)
            /\ IF term.out THEN term' = [term EXCEPT !.shown = main.ver] /\ main' = [main EXCEPT !.pc = main.next]
               ELSE /\ term' = term
                    /\ main' = IF "drawerr" \in Bugs THEN [main EXCEPT !.pc = "stuck"] ELSE Fail("other")
    /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, st, tty, win, budget>>

Start ==
    /\ main.pc = "start"
    /\ main' = [main EXCEPT !.pc = "loop", !.next = "loop"]
    /\ rd' = [rd EXCEPT !.pc = "read"]
    /\ rz' = [rz EXCEPT !.pc = "boot"]
    /\ dp' = "wait"
    /\ Silent /\ UNCHANGED <<sc, ctx, ig, st, tty, win, term, budget>>

LoopDone ==
    /\ main.pc \in {"loop", "send"} /\ ~ctx
    /\ main.pc = "send" => "block" \notin Bugs
    /\ main' = Fail("killed")
    /\ Silent /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, st, tty, win, term, budget>>

LoopErr ==    \* a goroutine reports a panic, or that the terminal cannot be asked for its size
    /\ main.pc = "loop"
    /\ \/ rz' = rz /\ \E n \in Nodes :
             /\ st[n].pc = "errs"
             /\ st' = [st EXCEPT ![n].pc = "fail"]
       \/ rz.pc = "errs" /\ rz' = [rz EXCEPT !.pc = "wait"] /\ st' = st
    /\ main' = Fail("other")
    /\ Silent /\ UNCHANGED <<sc, ctx, rd, dp, ig, tty, win, term, budget>>

MsgOf(n) ==
    LET d == Node(n) IN
    CASE d.k = "leaf" -> [k |-> IF d.r = "msg" THEN "leaf" ELSE d.r, id |-> n, w |-> 0, h |-> 0]
      [] OTHER        -> [k |-> d.k, id |-> n, w |-> 0, h |-> 0]

(* what happens in the event loop with a received message *)
Receive(m) ==
    CASE m.k = "nil"   -> [main EXCEPT !.pc = "loop"]
      [] m.k = "quit"  -> [main EXCEPT !.pc = "rend", !.next = "down", !.err = "nil"]
      [] m.k = "batch" -> IF "batch" \in Bugs THEN [main EXCEPT !.pc = "upd", !.msg = m]
                          ELSE [main EXCEPT !.pc = IF Node(m.id).ch = <<>> THEN "loop" ELSE "send", !.q = Node(m.id).ch, !.next = "loop"]
      [] OTHER         -> [main EXCEPT !.pc = "upd", !.msg = m]

RecvReader ==
    /\ main.pc = "loop" /\ rd.pc = "send"
    /\ main' = Receive([k |-> "key", id |-> Head(rd.buf), w |-> 0, h |-> 0])
    /\ rd' = [pc |-> IF Tail(rd.buf) = <<>> THEN "read" ELSE "send", buf |-> Tail(rd.buf)]
    /\ Silent /\ UNCHANGED <<sc, ctx, rz, dp, ig, st, tty, win, term, budget>>

RecvSize ==
    /\ main.pc = "loop" /\ rz.pc = "send"
    /\ IF term.out THEN main' = Receive([k |-> "size", id |-> 0, w |-> rz.size[1], h |-> rz.size[2]])
                        /\ term' = [term EXCEPT !.size = rz.size, !.shown = -1]
       ELSE main' = Fail("other") /\ term' = term
    /\ rz' = [rz EXCEPT !.pc = "wait"]
    /\ Silent /\ UNCHANGED <<sc, ctx, rd, dp, ig, st, tty, win, budget>>

RecvNode ==
    /\ main.pc = "loop"
    /\ \E n \in Nodes :
        /\ st[n].pc = "send"
        /\ main' = Receive(MsgOf(n))
        /\ st' = [st EXCEPT ![n].pc = IF Node(n).k = "seq" /\ st[n].mode = "top" THEN "exec" ELSE "done"]
    /\ Silent /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, tty, win, term, budget>>

UpdBegin ==
    /\ main.pc = "upd"
    /\ main' = [main EXCEPT !.pc = "upding"]
    /\ Observe(<<[op |-> "upd_b", ver |-> main.ver,
                  m |-> IF main.msg.k \in {"seq", "batch"} THEN [main.msg EXCEPT !.k = "internal"] ELSE main.msg]>>)
    /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, st, tty, win, term, budget>>

(* the command the model answers with; every tree is used once *)
Answer == LET m == main.msg
              n == CASE m.k = "key" -> sc.key[m.id] [] m.k = "leaf" -> sc.then[m.id] [] OTHER -> 0
          IN IF n # 0 /\ st[n].pc # "none" THEN 0 ELSE n

UpdEnd ==
    /\ main.pc = "upding"
    /\ IF main.msg.k = "key" /\ main.msg.id = sc.updpanic
       THEN main' = Fail("other") /\ st' = st /\ Observe(<<[op |-> "panic", in |-> "update", id |-> 0]>>)
       ELSE /\ main' = [main EXCEPT !.pc = "send", !.q = <<Answer>>, !.next = "rend", !.ver = @ + 1]
            /\ st' = IF Answer = 0 THEN st ELSE [st EXCEPT ![Answer].pc = "given"]
            /\ Observe(<<[op |-> "upd_e", ver |-> main.ver + 1, tree |-> Tree(Answer)]>>)
    /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, tty, win, term, budget>>

(* passing commands on to dp *)
Dispatch ==
    /\ main.pc = "send" /\ dp = "wait"
    /\ LET n == Head(main.q) IN
        st' = IF n = 0 THEN st ELSE [st EXCEPT ![n] = [pc |-> "call", mode |-> "top"]]
    /\ main' = [main EXCEPT !.q = Tail(@), !.pc = IF Tail(main.q) = <<>> THEN main.next ELSE "send", !.next = IF Tail(main.q) = <<>> THEN "loop" ELSE @]
    /\ Silent /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, tty, win, term, budget>>

(* shutdown: cancel the context, then the reader, wait for the handlers, restore the terminal *)
Down ==
    /\ main.pc = "down"
    /\ ctx' = FALSE
    /\ main' = [main EXCEPT !.pc = IF main.err = "other" /\ "norestore" \in Bugs THEN "restored" ELSE "join"]
    /\ Silent /\ UNCHANGED <<sc, rd, rz, dp, ig, st, tty, win, term, budget>>

Join ==
    /\ main.pc = "join"
    /\ rd.pc \in {"off", "exit"} \/ "noread" \in Bugs
    /\ rz.pc \in {"off", "exit"}
    /\ dp \in {"off", "exit"}
    /\ ig \in {"none", "exit"}
    /\ term' = [term EXCEPT !.raw = FALSE, !.cur = term.out \/ @, !.alt = IF term.out THEN FALSE ELSE @]
    /\ main' = [main EXCEPT !.pc = "restored"]
    /\ Silent /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, st, tty, win, budget>>

b2i(b) == IF b THEN 1 ELSE 0

Return ==
    /\ main.pc = "restored"
    /\ main' = [main EXCEPT !.pc = "ret"]
    /\ Observe(<<[op |-> "ret", ver |-> main.ver, err |-> main.err],
                 [op |-> "term", same |-> b2i(~term.raw), gone |-> b2i(~term.out), alt |-> b2i(term.alt), cur |-> b2i(term.cur), paste |-> 0],
                 [op |-> "readback", ok |-> b2i(rd.pc # "read")]>>)
    /\ UNCHANGED <<sc, ctx, rd, rz, dp, ig, st, tty, win, term, budget>>

--------------------------------------------------------------------------------
(* the other goroutines *)

InitCmdSend ==
    /\ ig = "send"
    /\ \/ dp = "wait" /\ st' = [st EXCEPT ![sc.init] = [pc |-> "call", mode |-> "top"]]
       \/ ~ctx /\ st' = st
    /\ ig' = "exit"
    /\ Silent /\ UNCHANGED <<sc, ctx, main, rd, rz, dp, tty, win, term, budget>>

DispatcherExit ==
    /\ dp = "wait" /\ ~ctx
    /\ dp' = "exit"
    /\ Silent /\ UNCHANGED <<sc, ctx, main, rd, rz, ig, st, tty, win, term, budget>>

Read ==
    /\ rd.pc = "read" /\ tty # <<>> /\ main.pc \notin {"restored", "ret"}
    /\ rd' = [pc |-> "send", buf |-> tty]
    /\ tty' = <<>>
    /\ Silent /\ UNCHANGED <<sc, ctx, main, rz, dp, ig, st, win, term, budget>>

ReaderExit ==  \* a blocked read is cancelled by shutdown, a blocked send by the context
    /\ \/ rd.pc = "read" /\ main.pc = "join" /\ "noread" \notin Bugs
       \/ rd.pc = "send" /\ ~ctx
    /\ rd' = [pc |-> "exit", buf |-> <<>>]
    /\ Silent /\ UNCHANGED <<sc, ctx, main, rz, dp, ig, st, tty, win, term, budget>>

ResizeStep ==
    /\ CASE rz.pc = "boot"  -> rz' = [rz EXCEPT !.pc = "check"]   \* signal.Notify
         [] rz.pc = "check" -> rz' = IF term.out THEN [rz EXCEPT !.pc = "send", !.size = win]   \* asking a dead terminal fails
                                     ELSE [rz EXCEPT !.pc = IF "sizeerr" \in Bugs THEN "wait" ELSE "errs"]
         [] rz.pc = "wait" /\ rz.sig -> rz' = [rz EXCEPT !.pc = "check", !.sig = FALSE]
         [] rz.pc \in {"wait", "send", "errs"} /\ ~ctx -> rz' = [rz EXCEPT !.pc = "exit"]
         [] OTHER -> FALSE
    /\ Silent /\ UNCHANGED <<sc, ctx, main, rd, dp, ig, st, tty, win, term, budget>>

ResizeExit ==
    /\ rz.pc \in {"wait", "send", "errs"} /\ ~ctx
    /\ rz' = [rz EXCEPT !.pc = "exit"]
    /\ Silent /\ UNCHANGED <<sc, ctx, main, rd, dp, ig, st, tty, win, term, budget>>

(* Commands. A top-level batch or sequence returns at once, its message goes to main. As part of a sequence    *)
(* (mode exec) it is expanded on the spot.                                                                    *)
Call(n) ==
    /\ st[n].pc = "call"
    /\ IF Node(n).k = "leaf"
       THEN st' = [st EXCEPT ![n].pc = "run"] /\ Observe(<<[op |-> "cmd_b", id |-> n]>>)
       ELSE st' = [st EXCEPT ![n].pc = IF st[n].mode = "top" THEN "send" ELSE "exec"] /\ Silent
    /\ UNCHANGED <<sc, ctx, main, rd, rz, dp, ig, tty, win, term, budget>>

LeafEnd(n) ==
    /\ st[n].pc = "run" /\ Node(n).r # "never"
    /\ IF Node(n).r = "panic"
       THEN /\ IF st[n].mode = "exec" /\ "execpanic" \in Bugs
               THEN st' = [st EXCEPT ![n].pc = "fail"] /\ Observe(<<[op |-> "panic", in |-> "cmd", id |-> n], [op |-> "crash"]>>)
               ELSE st' = [st EXCEPT ![n].pc = "errs"] /\ Observe(<<[op |-> "panic", in |-> "cmd", id |-> n]>>)
       ELSE st' = [st EXCEPT ![n].pc = "send"] /\ Observe(<<[op |-> "cmd_e", id |-> n, r |-> Node(n).r]>>)
    /\ UNCHANGED <<sc, ctx, main, rd, rz, dp, ig, tty, win, term, budget>>

GiveUp(n) ==
    /\ st[n].pc \in {"send", "errs"} /\ ~ctx
    /\ st' = [st EXCEPT ![n].pc = IF @ = "send" THEN "done" ELSE "fail"]
    /\ Silent /\ UNCHANGED <<sc, ctx, main, rd, rz, dp, ig, tty, win, term, budget>>

(* progress of a sequence or batch that is being executed *)
Over(n) == st[n].pc \in {"done", "fail"}
Child(n, i) == Node(n).ch[i]
ExecStep(n) ==
    /\ st[n].pc = "exec"
    /\ LET ch == Node(n).ch
           fresh == {i \in DOMAIN ch : st[ch[i]].pc \in {"none", "given"}}
           failed == \E i \in DOMAIN ch : st[ch[i]].pc = "fail"
       IN
       IF Node(n).k = "seq"
       THEN IF failed THEN st' = [st EXCEPT ![n].pc = "fail"]
            ELSE IF fresh = {} THEN (\A i \in DOMAIN ch : Over(ch[i])) /\ st' = [st EXCEPT ![n].pc = "done"]
            ELSE LET i == MinOf(fresh) IN
                 /\ \A j \in 1 .. i - 1 : Over(ch[j])
                 /\ st' = [st EXCEPT ![ch[i]] = [pc |-> "call", mode |-> "exec"]]
       ELSE IF fresh # {} THEN st' = [x \in Nodes |-> IF \E i \in fresh : ch[i] = x THEN [pc |-> "call", mode |-> "exec"] ELSE st[x]]
            ELSE /\ \A i \in DOMAIN ch : Over(ch[i])
                 /\ st' = [st EXCEPT ![n].pc = IF failed THEN "fail" ELSE "done"]
    /\ Silent /\ UNCHANGED <<sc, ctx, main, rd, rz, dp, ig, tty, win, term, budget>>

--------------------------------------------------------------------------------
(* the environment *)

Type ==
    /\ budget.keys > 0 /\ main.pc \notin {"setup", "init", "ret"}
    /\ \E k \in Keys :
        /\ tty' = Append(tty, k)
        /\ Observe(<<[op |-> "key", ks |-> <<k>>]>>)
    /\ budget' = [budget EXCEPT !.keys = @ - 1]
    /\ UNCHANGED <<sc, ctx, main, rd, rz, dp, ig, st, win, term>>

Resize ==
    /\ budget.resizes > 0 /\ main.pc \notin {"setup", "init", "ret"}
    /\ \E z \in Sizes \ {win} :
        /\ win' = z
        /\ Observe(<<[op |-> "resize", w |-> z[1], h |-> z[2]]>>)
    /\ rz' = [rz EXCEPT !.sig = rz.pc \notin {"off", "boot", "exit"}]
    /\ budget' = [budget EXCEPT !.resizes = @ - 1]
    /\ UNCHANGED <<sc, ctx, main, rd, dp, ig, st, tty, term>>

Cancel ==
    /\ "cancel" \in budget.stops /\ main.pc # "ret"
    /\ ctx' = FALSE
    /\ Observe(<<[op |-> "cancel"]>>)
    /\ budget' = [budget EXCEPT !.stops = @ \ {"cancel"}]
    /\ UNCHANGED <<sc, main, rd, rz, dp, ig, st, tty, win, term>>

OutputFails ==
    /\ "fault" \in budget.stops /\ term.out /\ main.pc \notin {"setup", "ret"}
    /\ term' = [term EXCEPT !.out = FALSE]
    /\ Observe(<<[op |-> "fault"]>>)
    /\ budget' = [budget EXCEPT !.stops = @ \ {"fault"}]
    /\ UNCHANGED <<sc, ctx, main, rd, rz, dp, ig, st, tty, win>>

--------------------------------------------------------------------------------
Init ==
    /\ sc \in Scenarios
    /\ ctx = TRUE
    /\ main = [pc |-> "setup", next |-> "", msg |-> [k |-> "nil", id |-> 0, w |-> 0, h |-> 0], q |-> <<>>, err |-> "none", ver |-> 0]
    /\ rd = [pc |-> "off", buf |-> <<>>]
    /\ rz = [pc |-> "off", size |-> <<2, 1>>, sig |-> FALSE]
    /\ dp = "off" /\ ig = "none"
    /\ st = [n \in DOMAIN sc.nodes |-> [pc |-> "none", mode |-> "top"]]
    /\ tty = <<>> /\ win = <<2, 1>>
    /\ term = [raw |-> FALSE, alt |-> FALSE, cur |-> TRUE, out |-> TRUE, size |-> <<2, 1>>, shown |-> -1]
    /\ mon = ObsInit(2, 1) /\ bad = {}
    /\ budget = [keys |-> MaxKeys, resizes |-> MaxResizes, stops |-> EnvStops]

Internal ==
    \/ Init0 \/ InitBegin \/ InitEnd \/ RendBegin \/ RendEnd \/ Start
    \/ LoopDone \/ LoopErr \/ RecvReader \/ RecvSize \/ RecvNode
    \/ UpdBegin \/ UpdEnd \/ Dispatch \/ Down \/ Join \/ Return
    \/ InitCmdSend \/ DispatcherExit \/ Read \/ ReaderExit \/ ResizeStep \/ ResizeExit
    \/ \E n \in Nodes : Call(n) \/ LeafEnd(n) \/ GiveUp(n) \/ ExecStep(n)
Environment == Type \/ Resize \/ Cancel \/ OutputFails

Next == Internal \/ Environment
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal)

--------------------------------------------------------------------------------
(* The properties: the monitor never objects (R01 - R05) ...                                                   *)
NoObjection == bad = {}

(* ... and when nothing can happen any more without the environment, nothing is outstanding, the screen shows *)
(* the current model, and if there was a reason to stop, Run has returned (a stop that can get stuck shows up  *)
(* as such a state: every goroutine only makes finitely many steps of its own).                                *)
AtRest == ~ENABLED Internal
RestIsFine ==
    AtRest =>
        /\ Viol(mon, [op |-> "settle", ch |-> term.shown, expect |-> mon.ver, alt |-> b2i(term.alt)]) = {}
        /\ Stopping(mon) /\ "fault" \notin mon.stops => mon.returned
        /\ "fault" \in mon.stops /\ term.shown # mon.ver => mon.returned
        /\ "fault" \in mon.stops /\ rz.size # win => mon.returned

(* a stop cause makes Run return; checked as liveness in the thorough tier *)
Terminates == [](Stopping(mon) /\ mon.stops \ {"fault"} # {} => <>mon.returned)
=============================================================================
