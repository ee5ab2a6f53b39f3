------------------------------ MODULE RandomMC ------------------------------
EXTENDS RandomBasis
VARIABLES re, im, u
vars == <<re, im, u>>
Vals == {-1, 0, 2}
Init == re = [x \in 1..4 |-> 0] /\ im = [x \in 1..4 |-> 0] /\ u = [x \in 1..16 |-> 0]
Next == \/ u = [x \in 1..16 |-> 0] /\ \E x \in 1..4, v \in Vals : re' = [re EXCEPT ![x] = v] /\ UNCHANGED <<im, u>>
        \/ u = [x \in 1..16 |-> 0] /\ \E x \in 1..4, v \in Vals : im' = [im EXCEPT ![x] = v] /\ UNCHANGED <<re, u>>
        \/ re = [x \in 1..4 |-> 0] /\ im = re /\ \E x \in 1..16 : u[x] = 0 /\ (\A y \in (x + 1)..16 : u[y] = 0) /\ u' = [u EXCEPT ![x] = x] /\ UNCHANGED <<re, im>>
Spec == Init /\ [][Next]_vars
\* the Hermitian part is Hermitian, and a Hermitian matrix is its own
InvHerm == IsHerm(HermR(re, 2), HermI(im, 2), 2) /\ (IsHerm(re, im, 2) => HermR(re, 2) = [x \in 1..4 |-> 2 * re[x]] /\ HermI(im, 2) = [x \in 1..4 |-> 2 * im[x]])
SymU == [x \in 1..16 |-> u[x] + u[Swap(x, 2)]]
InvSym == IsSym(SymU, 2) /\ \A x \in 1..16 : Swap(Swap(x, 2), 2) = x
\* exchanging particles is not the Hermitian symmetry: nothing else is forced
InvFree == (\A x \in 1..16 : u[x] = x) => Cardinality({SymU[x] : x \in 1..16}) = 10 \/ Cardinality({{x, Swap(x, 2)} : x \in 1..16}) = 10
=============================================================================
