--------------------------------- MODULE QS ---------------------------------
(* Basis sets and quantum systems: state and operations.                    *)
(*                                                                          *)
(* A basis set is a record                                                  *)
(*   l, dim         number of functions, spatial dimension                  *)
(*   h, s, u        one-body, overlap (l x l), two-body (l^4, or l x l when *)
(*                  stored compactly by the sinc-DVR basis, see U4)         *)
(*   dip            dipole moment (dim x l x l)                             *)
(*   spf, bra       ket / bra functions on the grid (l x grid...)           *)
(*   sx, sy, sz     spin matrices, in units of 1/(2 den^2)                  *)
(*   s2, s2tb       one- and two-body S^2, in units of 1/4 and 1/(4 den^4)  *)
(*   spin, anti     includes spin?  two-body elements anti-symmetrised?     *)
(*   enuc, grid     nuclear repulsion energy, grid                          *)
(* where den is the common denominator of the spin pair (A,B)/den.          *)
(*                                                                          *)
(* A system is a record  kind ("spas" closed shell, "gos" general), b (its  *)
(* basis), n, l, m, o, v (occupied/virtual partition as <<start, stop>>).   *)
EXTENDS Gauss

Opt(T, F(_)) == IF Present(T) THEN F(T) ELSE NoT

\* The interaction represented by compact or full storage.
U4(u) == IF Len(u.sh) = 2
         THEN LET n == u.sh[1] IN
              Gather(<<n, n, n, n>>, u, LAMBDA k : LET d == D4(n, k) IN
                 IF d[1] = d[3] /\ d[2] = d[4] THEN d[1] * n + d[2] + 1 ELSE 0)
         ELSE u
IsDiagU(u) == LET n == u.sh[1] IN
   Len(u.sh) = 2 \/ \A k \in 1..Len(u.re) : LET d == D4(n, k) IN
      (d[1] = d[3] /\ d[2] = d[4]) \/ (u.re[k] = 0 /\ u.im[k] = 0)

--------------------------------------------------------------------------
(* Change of basis *)
ChangeOK(b, C, Ct) == /\ Len(C.sh) = 2 /\ Len(Ct.sh) = 2
                      /\ C.sh[1] = b.l
                      /\ Ct.sh[1] = C.sh[2] /\ Ct.sh[2] = C.sh[1]
BChange(b, C, Ct) ==
  LET X1(T) == Xf1(T, C, Ct) IN
  [b EXCEPT !.l = C.sh[2],
     !.h = Opt(b.h, X1), !.s = Opt(b.s, X1),
     !.u = Opt(b.u, LAMBDA T : Xf2(U4(T), C, Ct)),
     !.dip = Opt(b.dip, LAMBDA T : MapComp(T, X1)),
     !.spf = Opt(b.spf, LAMBDA T : LMul(Tr(C), T)),
     !.bra = Opt(b.bra, LAMBDA T : LMul(Ct, T)),
     !.sx = Opt(b.sx, X1), !.sy = Opt(b.sy, X1), !.sz = Opt(b.sz, X1),
     !.s2 = Opt(b.s2, X1),
     !.s2tb = Opt(b.s2tb, LAMBDA T : Xf2(T, C, Ct))]

--------------------------------------------------------------------------
(* Spin *)
\* pair = <<A, B>>, each a pair of Gaussian integers; the spin functions are A/den, B/den
Inner(x, y) == CAdd(CMul(CConj(x[1]), y[1]), CMul(CConj(x[2]), y[2]))
Orthonormal(A, B, den) == /\ Inner(A, A) = <<den * den, 0>>
                          /\ Inner(B, B) = <<den * den, 0>>
                          /\ Inner(A, B) = <<0, 0>>
SigX(x) == <<x[2], x[1]>>
SigY(x) == <<CMul(<<0, -1>>, x[2]), CMul(<<0, 1>>, x[1])>>
SigZ(x) == <<x[1], CMul(<<-1, 0>>, x[2])>>
\* <s| sigma |t> for s, t in the pair, in units of 1/den^2
Pauli(A, B, Sig(_)) ==
  LET P == <<A, B>> IN
  Build(<<2, 2>>, LAMBDA k : Inner(P[((k - 1) \div 2) + 1], Sig(P[((k - 1) % 2) + 1])))

S2TB(sx, sy, sz) == TAdd(TAdd(Outer2(sx, sx), Outer2(sy, sy)), Outer2(sz, sz))

BAnti(b) ==
  IF b.anti THEN b
  ELSE [b EXCEPT !.u = AntiSym(U4(b.u)), !.s2tb = Opt(b.s2tb, AntiSym), !.anti = TRUE]

\* conversion to general spin-orbitals; nospin: do not set up the spin operators
BDouble(b, A, B, den, anti, nospin) ==
  IF b.spin THEN b
  ELSE
  LET sx == Kron2(b.s, Pauli(A, B, SigX))
      sy == Kron2(b.s, Pauli(A, B, SigY))
      sz == Kron2(b.s, Pauli(A, B, SigZ))
      d == [b EXCEPT !.l = 2 * b.l, !.spin = TRUE,
             !.h = Dbl1(b.h), !.s = Dbl1(b.s), !.u = Dbl2(U4(b.u)),
             !.dip = Opt(b.dip, LAMBDA T : MapComp(T, Dbl1)),
             !.spf = Opt(b.spf, DblF), !.bra = Opt(b.bra, DblF),
             !.sx = IF nospin THEN NoT ELSE sx, !.sy = IF nospin THEN NoT ELSE sy,
             !.sz = IF nospin THEN NoT ELSE sz,
             !.s2 = IF nospin THEN NoT ELSE TInt(3, Dbl1(b.s)),
             !.s2tb = IF nospin THEN NoT ELSE S2TB(sx, sy, sz)]
  IN IF anti THEN BAnti(d) ELSE d

--------------------------------------------------------------------------
(* Systems *)
SysRec(kind, bid, n, l) == [kind |-> kind, b |-> bid, n |-> n, l |-> l, m |-> l - n,
                            o |-> <<0, n>>, v |-> <<n, l>>]
SpasOK(b, N) == N >= 0 /\ N % 2 = 0 /\ ~b.spin /\ N \div 2 <= b.l
GosOK(b, n)  == n >= 0 /\ n <= (IF b.spin THEN b.l ELSE 2 * b.l)
\* GeneralOrbitalSystem(n, basis): converts the basis it is given in place
GosBasis(b, A, B, den, anti, nospin) ==
  LET d == BDouble(b, A, B, den, anti, nospin) IN IF anti THEN BAnti(d) ELSE d

--------------------------------------------------------------------------
(* Energies and Fock matrices *)
Sum1(h, n) == CSum(n, LAMBDA i : At(h, i - 1, i - 1))
SumD(u, n) == CSum(n * n, LAMBDA k : LET i == (k - 1) \div n  j == (k - 1) % n IN At4(u, i, j, i, j))
SumX(u, n) == CSum(n * n, LAMBDA k : LET i == (k - 1) \div n  j == (k - 1) % n IN At4(u, i, j, j, i))
CInt(n, x) == <<n * x[1], n * x[2]>>
\* both in units of 1/2
SpasE2(h, u, n) == CInt(2, CAdd(CInt(2, Sum1(h, n)), CSub(CInt(2, SumD(u, n)), SumX(u, n))))
GosE2(h, u, n)  == CAdd(CInt(2, Sum1(h, n)), SumD(u, n))
Energy2(sys, b) == IF sys.kind = "spas" THEN SpasE2(b.h, b.u, sys.n) ELSE GosE2(b.h, b.u, sys.n)

Fock(kind, n, h, u) ==
  Build(h.sh, LAMBDA k :
    LET N == h.sh[1]  p == (k - 1) \div N  q == (k - 1) % N
        D == CSum(n, LAMBDA i : At4(u, p, i - 1, q, i - 1))
        X == CSum(n, LAMBDA i : At4(u, p, i - 1, i - 1, q))
    IN CAdd(At(h, p, q), IF kind = "gos" THEN D ELSE CSub(CInt(2, D), X)))

--------------------------------------------------------------------------
(* Particle density:  sum_pq bra_p rho[q,p] ket_q *)
Density(rho, ket, bra) ==
  LET W == LMul(Tr(rho), ket)
      n == ket.sh[1]
      R == Prod(Tail(ket.sh))
  IN Build(Tail(ket.sh), LAMBDA g : CSum(n, LAMBDA p :
        LET k == (p - 1) * R + g IN CMul(<<bra.re[k], bra.im[k]>>, <<W.re[k], W.im[k]>>)))

--------------------------------------------------------------------------
(* Time evolution operators; time-dependent parameters are tables over the  *)
(* time index, in units 1/wd (the elements too); u(t) is in the unit of the *)
(* weights.  pol = <<>> is the default polarisation (first axis).           *)
NoTeo == [ty |-> "none"]
Has1(teo) == teo.ty \in {"laser", "custom"}
Has2(teo) == teo.ty = "adia"
Pol(teo, t, dim) == IF teo.pol = <<>> THEN [k \in 1..dim |-> IF k = 1 THEN <<1, 0>> ELSE <<0, 0>>]
                    ELSE teo.pol[t]
\* sum_k w[k] dip_k
DipSum(dip, w, n) == LET R == Prod(Tail(dip.sh)) IN
   Build(Tail(dip.sh), LAMBDA q : CSum(n, LAMBDA c :
      CMul(w[c], <<dip.re[(c - 1) * R + q], dip.im[(c - 1) * R + q]>>)))
Ht(teo, t, b) ==
  CASE teo.ty = "laser" -> TAdd(TScale(<<teo.wd, 0>>, b.h), TScale(teo.w[t], DipSum(b.dip, Pol(teo, t, b.dim), b.dip.sh[1])))
    [] teo.ty = "custom" -> TAdd(TScale(<<teo.wd, 0>>, b.h), TScale(teo.w[t], teo.O))
    [] OTHER -> b.h
Ut(teo, t, b) == IF teo.ty = "adia" THEN TScale(teo.w[t], b.u) ELSE b.u

--------------------------------------------------------------------------
(* Invariants of single objects *)
\* C01: every axis agrees with the size
SizesOK(b) ==
  LET M(T) == ~Present(T) \/ T.sh = <<b.l, b.l>>
      F(T) == ~Present(T) \/ (T.sh[1] = b.l /\ Len(T.sh) = b.dim + 1)
      W(T) == ~Present(T) \/ T.sh = <<b.l, b.l, b.l, b.l>>
  IN /\ M(b.h) /\ M(b.s) /\ M(b.sx) /\ M(b.sy) /\ M(b.sz) /\ M(b.s2)
     /\ (W(b.u) \/ M(b.u)) /\ W(b.s2tb) /\ F(b.spf) /\ F(b.bra)
     /\ (~Present(b.dip) \/ b.dip.sh = <<b.dim, b.l, b.l>>)
PartitionOK(s, b) == /\ s.l = b.l /\ s.m = s.l - s.n /\ s.n >= 0 /\ s.m >= 0
                     /\ s.o = <<0, s.n>> /\ s.v = <<s.n, s.l>>
WellShaped(b) == /\ \A T \in {b.h, b.s, b.u, b.dip, b.spf, b.bra, b.sx, b.sy, b.sz, b.s2, b.s2tb} : Shaped(T)
                 /\ SizesOK(b)
=============================================================================
