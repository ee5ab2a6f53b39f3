----------------------------- MODULE SamplerMC -----------------------------
(* Design model of sample collectors, and generator of histories: with       *)
(* EmitAt > 0 the history of each behaviour is printed at that length.       *)
EXTENDS Sampler, Json
CONSTANTS MaxOps, EmitAt, Few      \* Few: repeated dumps to a handful of places
VARIABLES C, Sm, fs, hist, last
vars == <<C, Sm, fs, hist, last>>

Paths == IF Few THEN {<<"d1">>, <<"dump">>} ELSE {<<"d1">>, <<"d1", "n">>, <<"d2">>, <<"dump">>, <<"f0">>, <<"f0", "x">>}
Names == IF Few THEN {"", "a.npy"} ELSE {"", "a.npy", "b.samples.npy"}
Keys == {"k1", "k2", "s1"}
Orders == {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<3, 1, 2>>}
Fs0 == [dirs |-> {<<"d2">>}, obst |-> {<<"f0">>}, files |-> EmptyF]

Init == /\ \E o \in Orders, a \in BOOLEAN, c \in {"SampleCollector", "Mine"} : C = [ord |-> o, any |-> a, cls |-> c, ex |-> EmptyF]
        /\ \E sh \in BOOLEAN : Sm = [i \in 1..3 |-> [key |-> IF sh /\ ~C.any /\ i < 3 THEN "sh" ELSE <<"s1", "s2", "s3">>[i], got |-> <<>>]]
        /\ fs = Fs0 /\ hist = <<>> /\ last = [op |-> "init", out |-> "ok", save |-> FALSE, before |-> fs]
Rec(r) == hist' = Append(hist, r)
Doit(r, out) == last' = [op |-> r.op, out |-> out, save |-> IF r.op = "Dump" THEN r.save ELSE FALSE, before |-> fs]
Sample == \E st \in {0, 1, 4} : LET r == [op |-> "Sample", step |-> st] IN
            /\ Sm' = SampleS(C, Sm, st) /\ UNCHANGED <<C, fs>> /\ Rec(r) /\ Doit(r, "ok")
Add == \E k \in Keys, v \in {<<7>>, <<8, 9>>} : LET r == [op |-> "Add", key |-> k, val |-> v] IN
            /\ C' = [C EXCEPT !.ex = Put(@, k, v)] /\ UNCHANGED <<Sm, fs>> /\ Rec(r) /\ Doit(r, "ok")
Get == LET r == [op |-> "Get"] IN UNCHANGED <<C, Sm, fs>> /\ Rec(r) /\ Doit(r, "ok")
Dump == \E p \in Paths, f \in Names, eo \in (IF Few THEN {TRUE} ELSE BOOLEAN), sv \in (IF Few THEN {TRUE} ELSE BOOLEAN) :
          LET r == [op |-> "Dump", path |-> p, file |-> f, existok |-> eo, save |-> sv]
              m == Merge(C.ex, C.ord, Sm)
          IN /\ Sm' = Sm /\ Rec(r)
             /\ IF sv /\ Refused(fs, p, eo) THEN fs' = fs /\ C' \in {C, [C EXCEPT !.ex = m]} /\ Doit(r, "err")
                ELSE C' = [C EXCEPT !.ex = m] /\ fs' = (IF sv THEN Store(fs, C, p, f, m) ELSE fs) /\ Doit(r, "ok")
Go == Len(hist) < MaxOps
Next == (Go /\ Sample) \/ (Go /\ Add) \/ (Go /\ Get) \/ (Go /\ Dump)
Spec == Init /\ [][Next]_vars
View == <<C, Sm, fs, Len(hist), last>>

\* every registered sampler got every step exactly once, in order
Steps == LET Is(r) == r.op = "Sample" IN [j \in 1..Len(SelectSeq(hist, Is)) |-> SelectSeq(hist, Is)[j].step]
InvOnce == \A i \in 1..3 : Sm[i].got = IF \E j \in 1..Len(C.ord) : C.ord[j] = i THEN Steps ELSE <<>>
\* everything explicitly added is in the dictionary
InvAdded == \A j \in 1..Len(hist) : hist[j].op = "Add" => hist[j].key \in DOMAIN C.ex
\* after a dump every sampler has contributed what it has
InvDump == last.op = "Dump" /\ last.out = "ok" =>
   \A j \in 1..Len(C.ord) : Sm[C.ord[j]].key \in DOMAIN C.ex /\ C.ex[Sm[C.ord[j]].key] = Sm[C.ord[j]].got
\* files change only by a saving dump that is not refused; the file then equals the dictionary
InvFile == /\ last.op # "init" /\ (fs.files # last.before.files) => last.op = "Dump" /\ last.save /\ last.out = "ok"
           /\ last.op = "Dump" /\ last.out = "ok" /\ last.save => \E x \in DOMAIN fs.files : fs.files[x] = C.ex
           /\ \A x \in DOMAIN fs.files : x[1] \in fs.dirs
Emit == (EmitAt > 0 /\ Len(hist) = EmitAt) => PrintT("HIST " \o ToJson([ord |-> C.ord, any |-> C.any, cls |-> C.cls,
            key |-> [i \in 1..3 |-> Sm[i].key], ops |-> hist]))
=============================================================================
