------------------------------ MODULE TraceKit ------------------------------
(* Common parts of the trace specifications. A trace is an ndjson file of events recorded from the real     *)
(* code; every event has "op" (what was called), "c" (1 when it starts a new, independent case) and, where   *)
(* the call can fail, "fail" ("" or how it failed: panic / hang). A trace specification consumes one event   *)
(* per step; when the real code deviates from the specification it reports MISMATCH <property> <line> <why>, *)
(* continues from the recorded state, and so checks the rest of the trace too.                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* A hang or a crash of the process is recorded without the call that it happened in: whatever is being checked is not *)
(* provided then.                                                                                                       *)
Nameless(e) == e.op = "hang" /\ "fail" \in DOMAIN e
Mismatch(prop, l, why) == PrintT("MISMATCH " \o (IF Nameless(Trace[l]) THEN IOEnv.PROP ELSE prop) \o " " \o ToString(l) \o " " \o why)

(* IF, not \/ : in an action TLC would explore both disjuncts. *)
Chk(prop, l, cond, why) == IF cond THEN TRUE ELSE Mismatch(prop, l, why)

ChkEq(prop, l, got, want, why) ==
    IF got = want THEN TRUE ELSE Mismatch(prop, l, why \o ": got " \o ToString(got) \o " want " \o ToString(want))

Done(n) == PrintT("TRACE-DONE " \o ToString(n))
=============================================================================
