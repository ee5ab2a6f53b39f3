---------------------------- MODULE RandomBasis -----------------------------
(* Random basis sets: the symmetrisations, and their laws on small integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* twice the Hermitian part of re + i im (flat l x l)
HermR(re, l) == [x \in 1..(l * l) |-> re[x] + re[((x - 1) % l) * l + ((x - 1) \div l) + 1]]
HermI(im, l) == [x \in 1..(l * l) |-> im[x] - im[((x - 1) % l) * l + ((x - 1) \div l) + 1]]
\* index of u[qpsr] for the index of u[pqrs]
Swap(x, l) == LET i == x - 1  p == i \div (l * l * l)  q == (i \div (l * l)) % l  r == (i \div l) % l  s == i % l
              IN ((q * l + p) * l + s) * l + r + 1
Tr(x, l) == ((x - 1) % l) * l + ((x - 1) \div l) + 1
IsHerm(re, im, l) == \A x \in 1..(l * l) : re[x] = re[Tr(x, l)] /\ im[x] = -im[Tr(x, l)]
IsSym(v, l) == \A x \in 1..(l * l * l * l) : v[x] = v[Swap(x, l)]
=============================================================================
