----------------------------- MODULE FactoryMC ------------------------------
(* Design model and generator of histories.  With Memo, building the same    *)
(* recipe twice hands out the same cell: Pure and Frame must then fail.      *)
EXTENDS Factory, Json, FiniteSets, TLC
CONSTANTS Recipes, Uses, MaxOps, MaxObjs, Memo, EmitAt
VARIABLES heap, objs, hist, last
vars == <<heap, objs, hist, last>>

Init == heap = <<>> /\ objs = <<>> /\ hist = <<>> /\ last = [op |-> "init", cs |-> <<>>, i |-> 0, r |-> ""]
Old(r) == {c \in 1..Len(heap) : heap[c][1] = r}
Build(r, sh) ==
  /\ Len(objs) < MaxObjs
  /\ IF Memo /\ Old(r) # {} THEN heap' = heap /\ objs' = Append(objs, CHOOSE c \in Old(r) : TRUE)
     ELSE heap' = BuildHeap(heap, r) /\ objs' = Append(objs, Len(heap) + 1)
  /\ hist' = Append(hist, [op |-> "Build", r |-> r, sh |-> sh, i |-> 0, u |-> ""])
  /\ last' = [op |-> "Build", cs |-> Contents(heap, objs), i |-> 0, r |-> r]
Touch(i, op, u) ==
  /\ heap' = TouchHeap(heap, objs[i]) /\ objs' = objs
  /\ hist' = Append(hist, [op |-> op, r |-> "", sh |-> FALSE, i |-> i, u |-> u])
  /\ last' = [op |-> op, cs |-> Contents(heap, objs), i |-> i, r |-> ""]
Next == Len(hist) < MaxOps /\
  (\/ \E r \in Recipes, sh \in BOOLEAN : Build(r, sh)
   \/ \E i \in 1..Len(objs) : Touch(i, "Write", "") \/ \E u \in Uses : Touch(i, "Use", u))
Spec == Init /\ [][Next]_vars
View == <<heap, objs, last, Len(hist)>>
\* a new object is what its recipe says; every other object keeps what it had
Pure == last.op = "Build" => Contents(heap, objs) = AfterBuild(last.cs, last.r)
Frame == last.op \in {"Write", "Use"} => Contents(heap, objs) = AfterTouch(last.cs, last.i)
Emit == (EmitAt > 0 /\ Len(hist) = EmitAt) => PrintT("HIST " \o ToJson([ops |-> hist]))
=============================================================================
