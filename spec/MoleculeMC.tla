------------------------------ MODULE MoleculeMC -----------------------------
(* Laws of Molecule on two orbitals: integrals with the symmetries of real    *)
(* functions, a few orthogonal and non-orthogonal coefficient matrices.       *)
EXTENDS Molecule
CONSTANT Big
VARIABLES h, g, C          \* h: 3 values, g: (11|11) (11|12) (11|22) (12|12) (12|22) (22|22)
vars == <<h, g, C>>
F(x) == x * One
Rot == <<600000, -800000, 800000, 600000>>
Cs == {<<One, 0, 0, One>>, Rot, <<0, One, One, 0>>, <<One, 500000, 0, -2 * One>>}
Vals == IF Big THEN {-1, 0, 2} ELSE {0, 1}
Init == h \in [1..3 -> Vals] /\ g = [x \in 1..6 |-> 0] /\ C \in Cs
Next == UNCHANGED <<h, C>> /\ \E x \in 1..6, v \in Vals : v # 0 /\ (\A y \in x..6 : g[y] = 0) /\ g' = [g EXCEPT ![x] = v]
Spec == Init /\ [][Next]_vars
H == <<F(h[1]), F(h[2]), F(h[2]), F(h[3])>>
Pair(p, q) == p + q - 1                         \* 11 -> 1, 12 -> 2, 22 -> 3
Idx(a, b) == LET i == IF a < b THEN a ELSE b  j == IF a < b THEN b ELSE a IN CASE i = 1 -> j [] i = 2 /\ j = 2 -> 4 [] i = 2 -> 5 [] OTHER -> 6
E4 == ([x \in 1..16 |-> LET i == x - 1  p == i \div 8  q == (i \div 4) % 2  r == (i \div 2) % 2  s == i % 2
                               IN F(g[Idx(Pair(p + 1, q + 1), Pair(r + 1, s + 1))])])
I == 1..2
Sum4(T(_, _, _, _)) == LET A(p) == LET B(q) == LET D4(r) == LET E(s) == T(p, q, r, s) IN SumF(E, 1, 2) IN SumF(D4, 1, 2) IN SumF(B, 1, 2) IN SumF(A, 1, 2)
U4(e) == TLCEval([x \in 1..16 |-> LET i == x - 1 IN Phys(e, 2, (i \div 8) + 1, ((i \div 4) % 2) + 1, ((i \div 2) % 2) + 1, (i % 2) + 1)])
\* four passes = one fourfold sum
InvChange == \A e4 \in {E4}, CC \in {C}, HH \in {H} : LET c4 == Change4(e4, CC, 2) IN \A p \in I, q \in I, r \in I, s \in I :
   LET T(a, b, c, d) == FMul(FMul(A2(CC, 2, a, p), A2(CC, 2, b, q)), FMul(FMul(A2(CC, 2, c, r), A2(CC, 2, d, s)), A4(e4, 2, a, b, c, d)))
   IN Near(A4(c4, 2, p, q, r, s), Sum4(T), 40)
\* the symmetries of real integrals, in physicists' order, survive
InvSym8 == \A e4 \in {E4}, CC \in {C}, HH \in {H} : LET u == U4(Change4(e4, CC, 2)) IN \A p \in I, q \in I, r \in I, s \in I :
   /\ Near(A4(u, 2, p, q, r, s), A4(u, 2, q, p, s, r), 20) /\ Near(A4(u, 2, p, q, r, s), A4(u, 2, r, q, p, s), 20) /\ Near(A4(u, 2, p, q, r, s), A4(u, 2, p, s, r, q), 20)
\* the reference energy of a full shell does not depend on the orbitals, and is the trace of h and f
InvEnergy == \A e4 \in {E4}, CC \in {C}, HH \in {H} : LET u == U4(e4)  h1 == Change2(HH, CC, 2)  u1 == U4(Change4(e4, CC, 2)) IN
   /\ CC \in {Rot, <<0, One, One, 0>>} => Near(ERef(HH, u, 2, 2), ERef(h1, u1, 2, 2), 200)
   /\ \A n \in I : LET T(i) == A2(HH, 2, i, i) + FockE(HH, u, 2, n, i, i) IN ERef(HH, u, 2, n) = SumF(T, 1, n)
\* the Fock matrix of a full shell is covariant, and symmetric
InvFock == \A e4 \in {E4}, CC \in {C}, HH \in {H} : LET u == U4(e4)  h1 == Change2(HH, CC, 2)  u1 == U4(Change4(e4, CC, 2))
               f == [x \in 1..4 |-> FockE(HH, u, 2, 2, ((x - 1) \div 2) + 1, ((x - 1) % 2) + 1)]
               f1 == Change2(f, CC, 2) IN
   /\ CC \in {Rot, <<0, One, One, 0>>} => \A p \in I, q \in I : Near(FockE(h1, u1, 2, 2, p, q), A2(f1, 2, p, q), 200)
   /\ f[2] = f[3]
=============================================================================
