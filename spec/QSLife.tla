------------------------------- MODULE QSLife -------------------------------
(* The lifecycle of basis sets and systems without their numbers: which     *)
(* objects exist, which basis a system owns, spin and anti-symmetry status, *)
(* attached time-evolution operators.  QSMC refines this machine with exact *)
(* tensors; QSGen generates the operation histories that are replayed into  *)
(* the implementation.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxB, MaxS
VARIABLES bs,  \* basis sets: [spin, anti]
          ss   \* systems: [kind, b, teo]
lvars == <<bs, ss>>

Ids(q) == 1..Len(q)
UsedBy(i) == {s \in Ids(ss) : ss[s].b = i}
Teos == {"none", "laser", "adia", "custom"}

LInit == bs = <<[spin |-> FALSE, anti |-> FALSE]>> /\ ss = <<>>

\* what conversion / anti-symmetrisation do to the status flags
Conv(b, an) == IF b.spin THEN b ELSE [spin |-> TRUE, anti |-> b.anti \/ an]

LNew(sp, an)  == Len(bs) < MaxB /\ bs' = Append(bs, [spin |-> sp, anti |-> an]) /\ UNCHANGED ss
LDouble(i, an) == UsedBy(i) = {} /\ bs' = [bs EXCEPT ![i] = Conv(bs[i], an)] /\ UNCHANGED ss
LAnti(i)      == bs' = [bs EXCEPT ![i].anti = TRUE] /\ UNCHANGED ss
LChange(i)    == UsedBy(i) = {} /\ UNCHANGED lvars
LSysChange(s) == Cardinality(UsedBy(ss[s].b)) = 1 /\ UNCHANGED lvars
LCopyB(i)     == Len(bs) < MaxB /\ bs' = Append(bs, bs[i]) /\ UNCHANGED ss
LNewSpas(i)   == /\ Len(ss) < MaxS /\ UsedBy(i) = {} /\ ~bs[i].spin
                 /\ ss' = Append(ss, [kind |-> "spas", b |-> i, teo |-> "none"]) /\ UNCHANGED bs
LNewGos(i, an) == /\ Len(ss) < MaxS /\ UsedBy(i) = {}
                 /\ bs' = [bs EXCEPT ![i] = LET c == Conv(bs[i], an) IN [c EXCEPT !.anti = @ \/ an]]
                 /\ ss' = Append(ss, [kind |-> "gos", b |-> i, teo |-> "none"])
LMkGos(s, an) == /\ Len(ss) < MaxS /\ Len(bs) < MaxB /\ ss[s].kind = "spas"
                 /\ bs' = Append(bs, LET c == Conv(bs[ss[s].b], an) IN [c EXCEPT !.anti = @ \/ an])
                 /\ ss' = Append(ss, [kind |-> "gos", b |-> Len(bs) + 1, teo |-> ss[s].teo])
LCopyS(s)     == /\ Len(ss) < MaxS /\ Len(bs) < MaxB
                 /\ bs' = Append(bs, bs[ss[s].b])
                 /\ ss' = Append(ss, [ss[s] EXCEPT !.b = Len(bs) + 1])
LSetTeo(s, ty) == ss' = [ss EXCEPT ![s].teo = ty] /\ UNCHANGED bs
LQuery        == UNCHANGED lvars     \* requests that only answer, and rejected requests

LNext == \/ LQuery
         \/ \E sp, an \in BOOLEAN : LNew(sp, an)
         \/ \E i \in Ids(bs) : LAnti(i) \/ LChange(i) \/ LCopyB(i) \/ LNewSpas(i)
                               \/ \E an \in BOOLEAN : LDouble(i, an) \/ LNewGos(i, an)
         \/ \E s \in Ids(ss) : LSysChange(s) \/ LCopyS(s) \/ (\E an \in BOOLEAN : LMkGos(s, an))
                               \/ (\E ty \in Teos : LSetTeo(s, ty))
LSpec == LInit /\ [][LNext]_lvars

\* a closed-shell system never sits on a spin basis; every system's basis exists
LInv == \A s \in Ids(ss) : ss[s].b \in Ids(bs) /\ (ss[s].kind = "spas") = ~bs[ss[s].b].spin
=============================================================================
