----------------------------- MODULE CacheTrace -----------------------------
(* Conformance of recorded multi-process histories with the cache as seen    *)
(* from outside: whatever happened before, a call that is not itself         *)
(* disturbed returns the right elements.                                     *)
(* events: begin [p, l, on]; step/fail/crash [p, point]; end [p, out, eq,    *)
(*   reads, writes, changed]; mark [l] (the stored elements of size l were   *)
(*   doubled); unmark                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
VARIABLES t, k, call, known, marked
vars == <<t, k, call, known, marked>>
View == <<t, k>>
Idle == [l |-> 0, on |-> FALSE, known |-> FALSE, fault |-> FALSE, run |-> FALSE, alone |-> FALSE, mark |-> FALSE]
Init == t \in 1..Len(Traces) /\ k = 0 /\ call = [p \in 1..4 |-> Idle] /\ known = {} /\ marked = {}
Pending == k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]
When(c, s) == IF c THEN {s} ELSE {}
Running == {p \in 1..4 : call[p].run}

Errs(e) ==
  IF e.op # "end" THEN {} ELSE
  LET c == call[e.p] IN
    When(~c.fault /\ e.out # "ok", "a call for " \o ToString(c.l) \o " orbitals failed: " \o e.why)
    \cup When(e.out = "ok" /\ ~c.mark /\ e.eq # "right", "elements for " \o ToString(c.l) \o " orbitals differ from those computed without caching")
    \cup When(~c.on /\ (e.reads > 0 \/ e.writes > 0), "files were accessed with caching disabled")
    \cup When(e.out = "ok" /\ c.mark /\ c.on /\ e.eq # "double", "a completed computation was not reused")
    \cup When(e.out = "ok" /\ c.mark /\ ~c.on /\ e.eq # "right", "stored elements were used with caching disabled")
    \cup When(e.out = "ok" /\ c.on /\ c.known /\ e.writes > 0, "a completed computation was stored again")
    \cup When(e.out = "ok" /\ c.on /\ ~c.fault /\ ~c.known /\ e.reads = 0 /\ e.writes = 0, "a computation was neither stored nor read")

Next == /\ Pending /\ k' = k + 1 /\ t' = t
        /\ call' = CASE Ev.op = "begin" -> [call EXCEPT ![Ev.p] = [l |-> Ev.l, on |-> Ev.on, known |-> Ev.l \in known, fault |-> FALSE, run |-> TRUE,
                                                                 alone |-> Running = {}, mark |-> Ev.l \in marked]]
                     [] Ev.op = "fail" -> [call EXCEPT ![Ev.p].fault = TRUE]
                     [] Ev.op \in {"crash", "end"} -> [call EXCEPT ![Ev.p] = Idle]
                     [] OTHER -> call
        /\ known' = IF Ev.op = "end" /\ Ev.out = "ok" /\ call[Ev.p].on /\ ~call[Ev.p].fault THEN known \cup {call[Ev.p].l} ELSE known
        /\ marked' = CASE Ev.op = "mark" -> marked \cup {Ev.l} [] Ev.op = "unmark" -> {} [] OTHER -> marked
Conform == Pending => \A c \in Errs(Ev) :
   PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c, props |-> {"C14"}]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))
Spec == Init /\ [][Next]_vars
=============================================================================
