------------------------------ MODULE QSWideMC ------------------------------
(* QSWide means the same as QS: along all histories of operations on small   *)
(* basis sets the wide basis stands for the basis of QS (Refines), and the   *)
(* elements, weighted sums, energies and Fock matrices agree (SameValues).   *)
EXTENDS QSWide
CONSTANTS MaxLen
VARIABLES w, b, len
vars == <<w, b, len>>
M(n, m, f, g) == Build(<<n, m>>, LAMBDA k : LET p == (k - 1) \div m  q == (k - 1) % m IN <<((f * p + 3 * q + p * q) % 5) - 2, ((g * q + 2 * p) % 3) - 1>>)
H(n, f) == LET A == M(n, n, f, f + 1) IN TAdd(A, Adj(A))
X0 == H(2, 1)
Y0 == M(2, 2, 3, 2)
W0(P) == [b |-> [l |-> 2, dim |-> 1, h |-> H(2, 2), s |-> TAdd(Id(2), Id(2)), u |-> NoT, dip |-> [H(2, 4) EXCEPT !.sh = <<1, 2, 2>>],
                 spf |-> M(2, 3, 1, 1), bra |-> M(2, 3, 2, 1), sx |-> NoT, sy |-> NoT, sz |-> NoT, s2 |-> NoT, s2tb |-> NoT, spin |-> FALSE, anti |-> FALSE],
          A |-> P, T |-> <<>>]
Starts == {W0(<<<<X0, Y0>>>>), W0(<<<<X0, X0>>, <<Y0, X0>>>>)}
Cs(n) == {<<M(n, m, f, 1), M(m, n, 1, f)>> : m \in {2, 3}, f \in {1, 2}}
Pairs == {<< <<<<1, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 0>>>> >>, << <<<<0, 0>>, <<0, 1>>>>, <<<<1, 0>>, <<0, 0>>>> >>}
Init == w \in Starts /\ b = Expand(w) /\ len = 0
Next == /\ len < MaxLen /\ len' = len + 1
        /\ \/ b.l <= 4 /\ \E c \in Cs(b.l) : w' = WChange(w, c[1], c[2]) /\ b' = BChange(b, c[1], c[2])
           \/ ~b.spin /\ ~b.anti /\ b.l = 2 /\ \E p \in Pairs, an \in BOOLEAN : w' = WDouble(w, p[1], p[2], 1, an) /\ b' = BDouble(b, p[1], p[2], 1, an, FALSE)
           \/ ~b.anti /\ w' = WAnti(w) /\ b' = BAnti(b)
Spec == Init /\ [][Next]_vars
Refines == Expand(w) = b
Ns == {1, b.l}
WV == [k \in 1..b.l |-> IF k % 2 = 1 THEN 1 ELSE -1]
WV2 == [k \in 1..b.l |-> IF k % 3 = 1 THEN -1 ELSE 1]
SameValues ==
  /\ \A n \in Ns : /\ WEnergy2("gos", n, w) = GosE2(b.h, b.u, n) /\ WEnergy2("spas", n, w) = SpasE2(b.h, b.u, n)
                   /\ \A kd \in {"gos", "spas"} : WFock(kd, n, b.h, w.A, b.anti) = Fock(kd, n, b.h, b.u)
  /\ \A k \in 1..Len(b.u.re) : LET d == D4(b.l, k) IN Elem(w.A, b.anti, d[1], d[2], d[3], d[4]) = <<b.u.re[k], b.u.im[k]>>
  /\ WSum(w.A, b.anti, WV, WV2, WV2, WV) =
       CSum(Len(b.u.re), LAMBDA k : LET d == D4(b.l, k)  f == WV[d[1] + 1] * WV2[d[2] + 1] * WV2[d[3] + 1] * WV[d[4] + 1] IN <<f * b.u.re[k], f * b.u.im[k]>>)
=============================================================================
