------------------------------ MODULE Sampler ------------------------------
(* Sample collectors: state and operations.                                  *)
(*  collector: ord    sampler numbers in registration order                  *)
(*             any    TRUE when the container has no order (a set)           *)
(*             cls    name of its class                                      *)
(*             ex     dictionary of samples: [key -> sequence of integers]   *)
(*  sampler:   key    key it contributes under                               *)
(*             got    steps it was given, in order                           *)
(*  fs:        dirs   existing directories;  obst: ordinary files in the way *)
(*             files  [<<directory, name>> -> stored dictionary]             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
EmptyF == [x \in {} |-> 0]

\* a sampling request: every sampler once, in order, with that step
SampleS(C, Sm, step) == [i \in DOMAIN Sm |-> IF i \in {C.ord[j] : j \in 1..Len(C.ord)} THEN [Sm[i] EXCEPT !.got = Append(@, step)] ELSE Sm[i]]
SampleLog(C, step) == [j \in 1..Len(C.ord) |-> [op |-> "sample", i |-> C.ord[j], step |-> step, keys |-> {}]]

\* contributions in the order o
RECURSIVE Merge(_, _, _)
Merge(ex, o, Sm) == IF o = <<>> THEN ex ELSE Merge(Put(ex, Sm[Head(o)].key, Sm[Head(o)].got), Tail(o), Sm)
DumpLog(ex, o, Sm) == [j \in 1..Len(o) |-> [op |-> "dump", i |-> o[j], step |-> 0, keys |-> DOMAIN Merge(ex, SubSeq(o, 1, j - 1), Sm)]]

\* paths are sequences of names
Prefixes(p) == {SubSeq(p, 1, j) : j \in 1..Len(p)}
Blocked(fs, p) == \E q \in Prefixes(p) : q \in fs.obst
Refused(fs, p, existok) == Blocked(fs, p) \/ (p \in fs.dirs /\ ~existok)
FileName(C, f) == IF f = "" THEN "tmp_" \o C.cls \o ".samples.npy" ELSE f
Store(fs, C, p, f, ex) == [fs EXCEPT !.dirs = @ \cup Prefixes(p), !.files = Put(@, <<p, FileName(C, f)>>, ex)]
=============================================================================
