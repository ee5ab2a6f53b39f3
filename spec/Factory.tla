------------------------------ MODULE Factory -------------------------------
(* Building systems.  A recipe is a kind of system together with all its     *)
(* arguments.  What a newly built object holds is a function of the recipe   *)
(* alone (written <<r, 0>>), whatever was built, written to or used before;  *)
(* every write or use of an object (its n-th) turns <<r, n-1>> into <<r, n>> *)
(* and touches no other object.  Objects live in cells of a heap.            *)
EXTENDS Naturals, Sequences

Content(heap, objs, i) == heap[objs[i]]
Contents(heap, objs) == [i \in 1..Len(objs) |-> Content(heap, objs, i)]
\* allocation of a fresh cell
BuildHeap(heap, r) == Append(heap, <<r, 0>>)
TouchHeap(heap, c) == [heap EXCEPT ![c] = <<@[1], @[2] + 1>>]

\* expected contents after a request, from the contents before it
AfterBuild(cs, r) == Append(cs, <<r, 0>>)
AfterTouch(cs, i) == [cs EXCEPT ![i] = <<@[1], @[2] + 1>>]
=============================================================================
