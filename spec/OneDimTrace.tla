---------------------------- MODULE OneDimTrace -----------------------------
(* Conformance of potentials, one-dimensional dots and oscillators, and      *)
(* sinc-DVR basis sets with OneDim.                                          *)
EXTENDS OneDim, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
VARIABLES t, k
vars == <<t, k>>
Init == t \in 1..Len(Traces) /\ k = 0
Pending == k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]
Cl(what, props) == {<<what, props>>}
When(c, s) == IF c THEN s ELSE {}
Str(x) == ToString(x)
Par(e) == TLCEval([j \in 1..Len(e.par) |-> Q(e.par[j])])
BAD == 2000000011

-----------------------------------------------------------------------------
PotErr(e) ==
  LET p == Par(e)
      X == TLCEval([j \in 1..Len(e.x) |-> Q(e.x[j])])
      Tol(y) == 60 + Abs(y) \div 2000
      BadV == {j \in 1..Len(X) : LET y == V(e.kind, p, X[j]) IN
                 e.v[j] = BAD \/ ~Near(e.v[j], y, Tol(y)) \/ e.w[j] # Walled(e.kind, p, X[j])}
      BadD == IF Len(e.d) = 0 THEN {} ELSE {j \in 1..Len(X) : LET y == DV(e.kind, p, X[j]) IN e.d[j] = BAD \/ ~Near(e.d[j], y, 2 * Tol(y))}
  IN When(e.err # "", Cl("potential " \o e.kind \o ": " \o e.err, {"C19"}))
     \cup (IF e.err # "" THEN {} ELSE
          When(Len(e.v) # Len(X) \/ ~e.shape, Cl("shape of the values of potential " \o e.kind, {"C19"}))
          \cup (IF Len(e.v) # Len(X) THEN {} ELSE When(BadV # {}, Cl("value of potential " \o e.kind \o " at point " \o Str(CHOOSE j \in BadV : TRUE), {"C19"})))
          \cup (IF Len(e.d) \notin {0, Len(X)} THEN Cl("shape of the derivative of potential " \o e.kind, {"C19"})
               ELSE When(BadD # {}, Cl("derivative of potential " \o e.kind \o " at point " \o Str(CHOOSE j \in BadD : TRUE), {"C19"})))
          \cup When(HasD(e.kind) /\ ~e.hasd, Cl("derivative of potential " \o e.kind \o " is missing", {"C19"}))
          \cup When(~e.kept, Cl("potential " \o e.kind \o " changed its argument", {"C19"})))

-----------------------------------------------------------------------------
DotErr(e) ==
  IF e.err # "" THEN Cl("construction failed: " \o e.err, {"C17"}) ELSE
  LET l == e.l  n == e.n  R == Q(e.R)  dx == (2 * R) \div (n - 1)  dx2 == FSq(dx)
      inv == FRat((n - 1) * (n - 1) * e.R[2] * e.R[2], 4 * e.R[1] * e.R[1])      \* 1 / dx^2
      p == Par(e)
      a == Q(e.a)  alpha == Q(e.alpha)  beta == Q(e.beta)
      X == TLCEval([i \in 1..n |-> GridX(R, n, i)])
      fr(q, i) == e.fr[(q - 1) * n + i]
      fi(q, i) == e.fi[(q - 1) * n + i]
      At(s, q, r) == s[(q - 1) * l + r]
      En(q) == At(e.h, q, q)
      Vx == TLCEval([i \in 1..n |-> IF e.kind = "qd" THEN V(e.pot, p, X[i]) ELSE 0])
      F(i) == Vx[i + 1]
      \* sum over the grid of conj(f_q) g f_r with trapezoidal weights, times dx
      IntR(q, r, g) == LET T(i) == FMul(FMul(W(i, n), g[i]), FMul(fr(q, i), fr(r, i)) + FMul(fi(q, i), fi(r, i))) IN FMul(dx, SumF(T, 1, n))
      IntI(q, r, g) == IF e.real THEN 0 ELSE
                       LET T(i) == FMul(FMul(W(i, n), g[i]), FMul(fr(q, i), fi(r, i)) - FMul(fi(q, i), fr(r, i))) IN FMul(dx, SumF(T, 1, n))
      Ones == [i \in 1..n |-> One]
      C17(c, what) == When(c, Cl(what \o " (" \o e.kind \o ")", {"C17"}))
      Pairs == (1..l) \X (1..l)
      Eq(q, i) == LET kin(f(_, _)) == FMul(2 * f(q, i) - f(q, i - 1) - f(q, i + 1), inv) \div 2 IN
                  /\ Near(kin(fr) + FMul(Vx[i] - En(q), fr(q, i)), 0, e.tol)
                  /\ Near(kin(fi) + FMul(Vx[i] - En(q), fi(q, i)), 0, e.tol)
      \* u by the inner integral over the second coordinate
      Sh == TLCEval([i \in 1..n |-> [j \in 1..n |-> Shield(X[i], X[j], alpha, a)]])
      \* all of them, or those with the bra and ket of the second coordinate in the recorded sample
      Inner == TLCEval({<<e.quads[j][2], e.quads[j][4]>> : j \in 1..Len(e.quads)})
      InR == TLCEval([x \in Inner |-> [i \in 1..n |-> IntR(x[1], x[2], Sh[i])]])
      InI == TLCEval([x \in Inner |-> [i \in 1..n |-> IntI(x[1], x[2], Sh[i])]])
      UR(x) == IntR(x[1], x[3], InR[<<x[2], x[4]>>]) - IntI(x[1], x[3], InI[<<x[2], x[4]>>])
      UI(x) == IF e.real THEN 0 ELSE IntR(x[1], x[3], InI[<<x[2], x[4]>>]) + IntI(x[1], x[3], InR[<<x[2], x[4]>>])
  IN IF Len(e.fr) # l * n \/ Len(e.h) # l * l \/ Len(e.dr) # l * l \/ Len(e.ur) # Len(e.quads) \/ (l <= 3 /\ Len(e.quads) # l * l * l * l) THEN Cl("shapes", {"C17"}) ELSE
     C17(\E x \in Pairs : x[1] # x[2] /\ (At(e.h, x[1], x[2]) # 0 \/ At(e.hi, x[1], x[2]) # 0), "one-body Hamiltonian not diagonal")
     \cup C17(\E q \in 1..l : At(e.hi, q, q) # 0, "energies not real")
     \cup C17(\E x \in Pairs : At(e.s, x[1], x[2]) # IF x[1] = x[2] THEN One ELSE 0, "overlap is not the unit matrix")
     \cup C17(\E q \in 2..l : En(q) < En(q - 1), "energies not ascending")
     \cup (IF e.kind = "qd" THEN
           C17(\E q \in 1..l : fr(q, 1) # 0 \/ fr(q, n) # 0 \/ fi(q, 1) # 0 \/ fi(q, n) # 0, "functions do not vanish at the ends")
           \cup C17(\E x \in Pairs : ~Near(IntR(x[1], x[2], Ones), IF x[1] = x[2] THEN One ELSE 0, 150) \/ ~Near(IntI(x[1], x[2], Ones), 0, 150), "functions not orthonormal on the grid")
           \cup C17(\E q \in 1..l, i \in 2..(n - 1) : ~Eq(q, i), "functions are not eigenfunctions of the discretised Hamiltonian")
           \cup C17(\E q \in 1..l : Below(F, dx2, En(q) - e.win, n - 2) > q - 1 \/ Below(F, dx2, En(q) + e.win, n - 2) < q, "energies are not the lowest")
           \cup LET g == TLCEval([i \in 1..n |-> Dip(X[i], beta)]) IN
                C17(\E x \in Pairs : ~Near(At(e.dr, x[1], x[2]), IntR(x[1], x[2], g), e.tol) \/ ~Near(At(e.di, x[1], x[2]), IntI(x[1], x[2], g), e.tol), "dipole elements")
          ELSE
           LET om == Q(e.omega) IN
           C17(\E q \in 1..l : ~Near(En(q), (2 * q - 1) * (om \div 2), 5), "energies")
           \cup C17(\E q \in 1..(IF l < 3 THEN l ELSE 3), i \in 1..n : ~Near(fr(q, i), Hermite(q - 1, om, X[i]), 100) \/ fi(q, i) # 0, "functions are not the Hermite functions")
           \* the higher ones by their recurrence
           \cup C17(\E q \in 3..(l - 1), i \in 1..n :
                      ~Near(FMul(FSqrt(q * One), fr(q + 1, i)), FMul(FMul(1414214, FMul(FSqrt(om), X[i])), fr(q, i)) - FMul(FSqrt((q - 1) * One), fr(q - 1, i)), 60)
                      \/ fi(q + 1, i) # 0, "functions are not the Hermite functions")
           \cup C17(\E x \in Pairs : At(e.di, x[1], x[2]) # 0, "dipole elements not real")
           \cup C17(\E x \in Pairs : IF Abs(x[1] - x[2]) # 1 THEN At(e.dr, x[1], x[2]) # 0
                     ELSE LET d == At(e.dr, x[1], x[2])  m == IF x[1] < x[2] THEN x[1] ELSE x[2] IN
                          d <= 0 \/ ~Near(2 * FMul(om, FSq(d)), m * One, 100), "dipole elements"))
     \cup C17(\E j \in 1..Len(e.quads) : ~Near(e.ur[j], UR(e.quads[j]), e.tol) \/ ~Near(e.ui[j], UI(e.quads[j]), e.tol), "two-body elements")

-----------------------------------------------------------------------------
DvrErr(e) ==
  IF e.err # "" THEN Cl("sinc-DVR: " \o e.err, {"C18"}) ELSE
  LET l == e.l  R == Q(e.R)  dx == (2 * R) \div (l - 1)  p == Par(e)
      inv == FRat((l - 1) * (l - 1) * e.R[2] * e.R[2], 4 * e.R[1] * e.R[1])
      a == Q(e.a)  alpha == Q(e.alpha)  beta == Q(e.beta)
      X == TLCEval([i \in 1..l |-> GridX(R, l, i)])
      Pairs == (1..l) \X (1..l)
      At(s, x) == s[(x[1] - 1) * l + x[2]]
      C18(c, what) == When(c, Cl("sinc-DVR: " \o what, {"C18"}))
      UnT == TLCEval([x \in Pairs |-> Shield(X[x[1]], X[x[2]], alpha, a)])
      Un(x) == UnT[x]
      U2(s) == \A x \in Pairs : Near(At(s, x), Un(x), 40)
      U4(s) == \A j \in 1..Len(s) :
                 LET i == j - 1  q1 == (i \div (l * l * l)) + 1  q2 == ((i \div (l * l)) % l) + 1  q3 == ((i \div l) % l) + 1  q4 == (i % l) + 1 IN
                 IF q1 = q3 /\ q2 = q4 THEN Near(s[j], Un(<<q1, q2>>), 40) ELSE s[j] = 0
  IN IF Len(e.h) # l * l \/ Len(e.spf) # l * l \/ Len(e.dip) # l * l THEN Cl("sinc-DVR: shapes", {"C18"}) ELSE
     C18(~e.real, "elements not real")
     \cup C18(\E x \in Pairs : ~Near(At(e.h, x), FMul(Kin(x[1], x[2]), inv) + IF x[1] = x[2] THEN V(e.pot, p, X[x[1]]) ELSE 0, 200), "one-body elements")
     \cup C18(\E x \in Pairs : At(e.s, x) # IF x[1] = x[2] THEN One ELSE 0, "overlap")
     \cup C18(\E x \in Pairs : ~Near(At(e.dip, x), IF x[1] = x[2] THEN Dip(X[x[1]], beta) ELSE 0, 20), "dipole elements")
     \cup C18(\E x \in Pairs : ~Near(At(e.spf, x), IF x[1] = x[2] THEN FDiv(One, FSqrt(dx)) ELSE 0, 20), "functions")
     \cup UNION {LET o == e.us[j] IN
                 C18(o.repr # o.want, "interaction is stored as " \o o.repr \o " instead of " \o o.want)
                 \cup C18(Len(o.u) # (IF o.want = "2d" THEN l * l ELSE l * l * l * l), "shape of the interaction stored as " \o o.want)
                 \cup (IF Len(o.u) = l * l THEN C18(~U2(o.u), "compact interaction after " \o Str(j - 1) \o " switches")
                      ELSE IF Len(o.u) = l * l * l * l THEN C18(~U4(o.u), "full interaction after " \o Str(j - 1) \o " switches") ELSE {}) : j \in 1..Len(e.us)}

-----------------------------------------------------------------------------
Errs == CASE Ev.op = "pot" -> PotErr(Ev) [] Ev.op = "dot" -> DotErr(Ev) [] Ev.op = "dvr" -> DvrErr(Ev) [] OTHER -> {}
Conform == Pending => \A c \in Errs :
   PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c[1], props |-> c[2]]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))
Next == Pending /\ k' = k + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
