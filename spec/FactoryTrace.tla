---------------------------- MODULE FactoryTrace ----------------------------
(* Conformance of recorded histories of building and using systems with      *)
(* Factory.  The content of an object is a sequence of numbers, one per      *)
(* observable quantity, equal numbers standing for equal contents; ref gives *)
(* the contents of each recipe built first in a process of its own.          *)
EXTENDS Factory, Json, IOUtils, TLC
Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
VARIABLES t, k, cs, O     \* cs: expected contents <<recipe, version>>; O: observed contents
vars == <<t, k, cs, O>>
Init == t \in 1..Len(Traces) /\ k = 0 /\ cs = <<>> /\ O = <<>>
Pending == k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]
Cl(what) == {what}
When(c, s) == IF c THEN s ELSE {}
Exp(e) == IF e.op = "Build" THEN AfterBuild(cs, e.r) ELSE AfterTouch(cs, e.i)
Names == Traces[t].names
Show(a, b) == LET D == {j \in 1..Len(Names) : a[j] # b[j]} IN IF D = {} THEN "" ELSE Names[CHOOSE j \in D : TRUE]
Errs(e) ==
  LET x == Exp(e) IN
  When(e.op = "Build" /\ e.out # "ok", Cl("building " \o e.r \o " failed: " \o e.exc))
  \cup When(e.args0 # e.args1, Cl("an argument of " \o e.op \o " " \o e.r \o " was modified"))
  \cup (IF e.op = "Build" /\ e.out # "ok" THEN {}
        ELSE IF Len(e.all) # Len(x) THEN Cl("objects after " \o e.op)
        ELSE UNION {IF x[i][2] = 0 /\ i > Len(cs)
                    THEN When(e.all[i] # e.ref, Cl("a new " \o x[i][1] \o " differs from one built first, in " \o Show(e.all[i], e.ref)))
                    ELSE IF x[i] = cs[i]
                    THEN When(e.all[i] # O[i], Cl("object " \o ToString(i) \o " (" \o x[i][1] \o ") changed by " \o e.op \o " of another, in " \o Show(e.all[i], O[i])))
                    ELSE {} : i \in 1..Len(x)})
Conform == Pending => \A c \in Errs(Ev) :
   PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c, props |-> {"C25"}]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))
Next == /\ Pending /\ k' = k + 1 /\ t' = t
        /\ IF Ev.op = "Build" /\ Ev.out # "ok" THEN UNCHANGED <<cs, O>> ELSE cs' = Exp(Ev) /\ O' = Ev.all
Spec == Init /\ [][Next]_vars
=============================================================================
