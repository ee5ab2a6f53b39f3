------------------------------ MODULE TwoDimMC ------------------------------
(* Design model of the oscillator orbitals: walks over all quadruples of the *)
(* first L orbitals and checks the laws the elements must obey.              *)
EXTENDS TwoDim
CONSTANTS L, K,    \* orbitals in pairs or quadruples; indices walked for the order alone
          Deep     \* walk quadruples, not only pairs
VARIABLES p, q, r, s
vars == <<p, q, r, s>>
Init == p = 0 /\ q = 0 /\ r = 0 /\ s = 0
Next == \/ p < K /\ q = 0 /\ r = 0 /\ s = 0 /\ p' = p + 1 /\ UNCHANGED <<q, r, s>>
        \/ p < L /\ q < L - 1 /\ r = 0 /\ s = 0 /\ q' = q + 1 /\ UNCHANGED <<p, r, s>>
        \/ Deep /\ p < L /\ r < L - 1 /\ s = 0 /\ r' = r + 1 /\ UNCHANGED <<p, q, s>>
        \/ Deep /\ p < L /\ s < L - 1 /\ s' = s + 1 /\ UNCHANGED <<p, q, r>>
Spec == Init /\ [][Next]_vars

a == Orb(p)
b == Orb(q)
c == Orb(r)
d == Orb(s)
Quad == p < L
\* C12
InvIndex == Index(a) = p /\ a[1] >= 0
InvShell == LET n == Orb(p + 1) IN \/ Shell(n) = Shell(a) /\ n[2] = a[2] + 2
                                   \/ Shell(n) = Shell(a) + 1 /\ n[2] = -(Shell(n) - 1) /\ a[2] = Shell(a) - 1
InvCount == ShellStart(Shell(a) + 1) - ShellStart(Shell(a)) = Shell(a)
\* C13
E(w, x, y, z) == CoulI(w, x, y, z, 1)
Rev(o) == <<o[1], -o[2]>>
InvCoul == Quad => /\ E(a, b, c, d) = E(b, a, d, c)
                   /\ E(a, b, c, d) = E(c, d, a, b)
                   /\ E(a, b, c, d) = E(Rev(a), Rev(b), Rev(c), Rev(d))
\* the interaction commutes with the ladder operators of the total motion
\* (unnormalised circular states; the sign convention (-1)^n taken out)
Circ(np, nm) == <<Min(np, nm), np - nm>>
U(w, x, y, z) == M(Sg(w[1] + x[1] + y[1] + z[1]) * E(w, x, y, z), Primes[1])
Up(o) == Circ(NP(o) + 1, NM(o))
Dn(o) == IF NP(o) = 0 THEN o ELSE Circ(NP(o) - 1, NM(o))
Um(o) == Circ(NP(o), NM(o) + 1)
Dm(o) == IF NM(o) = 0 THEN o ELSE Circ(NP(o), NM(o) - 1)
InvLadder == (Quad /\ p <= 2 /\ a[2] + b[2] = c[2] + d[2] + 1) =>
   M(U(a, b, Up(c), d) + U(a, b, c, Up(d)), Primes[1])
     = M(2 * ((IF NP(a) = 0 THEN 0 ELSE NP(a) * U(Dn(a), b, c, d)) + (IF NP(b) = 0 THEN 0 ELSE NP(b) * U(a, Dn(b), c, d))), Primes[1])
InvLadder2 == (Quad /\ p <= 2 /\ a[2] + b[2] = c[2] + d[2] - 1) =>
   M(U(a, b, Um(c), d) + U(a, b, c, Um(d)), Primes[1])
     = M(2 * ((IF NM(a) = 0 THEN 0 ELSE NM(a) * U(Dm(a), b, c, d)) + (IF NM(b) = 0 THEN 0 ELSE NM(b) * U(a, Dm(b), c, d))), Primes[1])
\* C15
InvDip == Quad => /\ DipX(a, b) = DipX(b, a)
                  /\ DipX(a, b)[2] # 0 => Abs(Shell(a) - Shell(b)) = 1 /\ Abs(a[2] - b[2]) = 1
                  /\ DipY(a, b)[1] = -DipY(b, a)[1]
\* sum over b of |x_ab|^2 + |y_ab|^2 = <r^2> = 2n+|m|+1 (units 1/(mass*omega)), 2 * sum of squares / 4
RECURSIVE Sum2(_, _)
Sum2(o, k) == IF k < 0 THEN 0 ELSE 2 * DipX(o, Orb(k))[2] + Sum2(o, k - 1)
InvSumRule == (Quad /\ q = 0 /\ r = 0 /\ s = 0) => Sum2(a, ShellStart(Shell(a) + 2) - 1) = 4 * Shell(a)
\* the two ways to evaluate the functions agree
InvRad == (q = 0 /\ r = 0 /\ s = 0 /\ p <= 14) => \A x \in {0, 1, 2, 3, 4, 6, 8} : Near(Radial(a, x * 250000), RadialR(a, x * 250000), 60)
\* C23
InvAbs == (Quad /\ r = 0 /\ s = 0) => \A ax \in {0, 1} :
             /\ Near(AbsX(a, b, ax), AbsX(b, a, ax), 20)
             /\ (AbsX(a, b, ax) # 0 => (a[2] - b[2]) % 2 = 0)
             /\ Near(AbsX(a, b, ax), AbsX(Rev(a), Rev(b), ax), 20)
\* C16 (w = -W, no oscillator: infinitely many states of lowest energy and no first one; excluded): the l lowest states are found among n < l, |m| <= l for every field, and the order is total
Fields == {<<5, 4>>, <<5, 3>>, <<13, 12>>, <<17, 8>>, <<1, 0>>, <<1, 1>>, <<5, -4>>}
Rank(o, S, F) == Cardinality({x \in S : Before(x, o, F[1], F[2])})
InvField == (q = 0 /\ p >= 1 /\ p <= L) => \A F \in Fields :
   LET S == {<<n, m>> : n \in 0..(p - 1), m \in (-p)..p}
       S2 == {<<n, m>> : n \in 0..(p + 2), m \in (-(p + 3))..(p + 3)}
   IN {o \in S : Rank(o, S, F) < p} = {o \in S2 : Rank(o, S2, F) < p}
\* without field: the plain order
InvField0 == (q = 0 /\ p < L) => LET S == {Orb(x) : x \in 0..(L + 12)} IN Rank(Orb(p), S, <<1, 0>>) = p
=============================================================================
