------------------------------- MODULE Cache -------------------------------
(* The store of Coulomb elements shared by processes: design model.          *)
(*                                                                           *)
(* A call for size l with caching looks for the stored file; if present it   *)
(* loads it, otherwise it computes the elements, writes them to a file of    *)
(* its own and renames that to the stored name (Atomic), or writes the       *)
(* stored name directly (~Atomic, which must violate the invariants).        *)
(* Processes can die between any two steps; writing and renaming can fail.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Sizes, Atomic, MaxActs, EmitAt
VARIABLES pc,      \* per process: idle, look, load, compute, write, half, full, done, dead
          req,     \* per process: current call [l, on]
          fin,     \* per size: stored file "none", "part", "ok"
          own,     \* per process: its own temporary file "none", "part", "ok"
          res,     \* per process: outcome of its last call
          known,   \* sizes some completed call has stored
          exp,     \* per process: size was known when the call began
          trash,   \* number of temporary files left by dead processes
          hist
vars == <<pc, req, fin, own, res, known, exp, trash, hist>>
NoReq == [l |-> 0, on |-> FALSE]
Init == /\ pc = [p \in Procs |-> "idle"] /\ req = [p \in Procs |-> NoReq] /\ fin = [l \in Sizes |-> "none"]
        /\ own = [p \in Procs |-> "none"] /\ res = [p \in Procs |-> "none"] /\ known = {} /\ exp = [p \in Procs |-> FALSE]
        /\ trash = 0 /\ hist = <<>>
Rec(a, p, l, on) == Len(hist) < MaxActs /\ hist' = Append(hist, [a |-> a, p |-> p, l |-> l, on |-> on])
Go(p, x) == pc' = [pc EXCEPT ![p] = x]
Fin(p, r) == res' = [res EXCEPT ![p] = r] /\ Go(p, "idle")

Begin(p) == /\ pc[p] \in {"idle", "dead"}          \* a dead process is replaced by a new one
            /\ \E l \in Sizes, on \in BOOLEAN :
                 /\ req' = [req EXCEPT ![p] = [l |-> l, on |-> on]] /\ exp' = [exp EXCEPT ![p] = on /\ l \in known]
                 /\ Go(p, IF on THEN "look" ELSE "compute") /\ res' = [res EXCEPT ![p] = "running"] /\ Rec("begin", p, l, on)
            /\ UNCHANGED <<fin, own, known, trash>>
L(p) == req[p].l
Look(p) == pc[p] = "look" /\ Go(p, IF fin[L(p)] = "none" THEN "compute" ELSE "load") /\ UNCHANGED <<req, fin, own, res, known, exp, trash>>
Load(p) == /\ pc[p] = "load" /\ Fin(p, IF fin[L(p)] = "ok" THEN "ok" ELSE "bad")
           /\ known' = IF fin[L(p)] = "ok" THEN known \cup {L(p)} ELSE known
           /\ UNCHANGED <<req, fin, own, exp, trash>>
Compute(p) == /\ pc[p] = "compute"
              /\ IF req[p].on THEN Go(p, "write") /\ res' = [res EXCEPT ![p] = "computed"] ELSE Fin(p, "ok")
              /\ UNCHANGED <<req, fin, own, known, exp, trash>>
Open(p) == /\ pc[p] = "write" /\ Go(p, "half")
           /\ IF Atomic THEN own' = [own EXCEPT ![p] = "part"] /\ fin' = fin ELSE fin' = [fin EXCEPT ![L(p)] = "part"] /\ own' = own
           /\ UNCHANGED <<req, res, known, exp, trash>>
Rest(p) == /\ pc[p] = "half"
           /\ IF Atomic THEN own' = [own EXCEPT ![p] = "ok"] /\ fin' = fin /\ Go(p, "full") /\ UNCHANGED <<res, known>>
              ELSE fin' = [fin EXCEPT ![L(p)] = "ok"] /\ own' = own /\ Fin(p, "ok") /\ known' = known \cup {L(p)}
           /\ UNCHANGED <<req, exp, trash>>
Rename(p) == /\ pc[p] = "full" /\ fin' = [fin EXCEPT ![L(p)] = own[p]] /\ own' = [own EXCEPT ![p] = "none"]
             /\ Fin(p, "ok") /\ known' = known \cup {L(p)} /\ UNCHANGED <<req, exp, trash>>
Step(p) == (Look(p) \/ Load(p) \/ Compute(p) \/ Open(p) \/ Rest(p) \/ Rename(p)) /\ Rec("step", p, 0, FALSE)
Crash(p) == /\ pc[p] \notin {"idle", "dead"} /\ Go(p, "dead") /\ res' = [res EXCEPT ![p] = "dead"]
            /\ trash' = trash + (IF own[p] = "none" THEN 0 ELSE 1) /\ own' = [own EXCEPT ![p] = "none"]
            /\ Rec("crash", p, 0, FALSE) /\ UNCHANGED <<req, fin, known, exp>>
\* a failing write or rename: the call fails and removes its own file
Fail(p) == /\ pc[p] \in {"write", "half", "full"} /\ own' = [own EXCEPT ![p] = "none"] /\ Fin(p, "failed")
           /\ Rec("fail", p, 0, FALSE) /\ UNCHANGED <<req, fin, known, exp, trash>>
Next == \E p \in Procs : Begin(p) \/ Step(p) \/ Crash(p) \/ Fail(p)
Spec == Init /\ [][Next]_vars
View == <<pc, req, fin, own, res, known, exp, IF trash > 2 THEN 2 ELSE trash, Len(hist)>>
ViewUnbounded == <<pc, req, fin, own, res, known, exp>>     \* without bound on the number of actions

InvResult == \A p \in Procs : res[p] # "bad"
InvWhole == \A l \in Sizes : fin[l] # "part"
InvKnown == \A l \in known : fin[l] = "ok"
InvReuse == \A p \in Procs : exp[p] => pc[p] \notin {"compute", "write", "half", "full"}
InvOff == \A p \in Procs : ~req[p].on => pc[p] \notin {"look", "load", "write", "half", "full"}
\* no step of one process can be undone by another: a stored file stays
Stable == [][\A l \in Sizes : fin[l] = "ok" => fin'[l] = "ok"]_vars

Emit == (EmitAt > 0 /\ Len(hist) = EmitAt) => PrintT("HIST " \o ToJson(hist))
=============================================================================
