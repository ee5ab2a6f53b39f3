---------------------------- MODULE TwoDimTrace -----------------------------
(* Conformance of the two-dimensional systems with TwoDim.  An event is one  *)
(* observation: the orbital order ("idx", "inv", "he"), or one constructed   *)
(* system ("sys") with the elements in the exact units of TwoDim:            *)
(*   h: integers in units hu (ho, b), fixed point (dw)                       *)
(*   u: integers in the unit sqrt(pi/2) sqrt(mass omega) / (4^T prod sqrt(np! nm!)) *)
(*   dipole: signed squares, unit 1/(4 mass omega);  functions: fixed point  *)
EXTENDS TwoDim, Json, IOUtils, FiniteSetsExt

Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
VARIABLES t, k
vars == <<t, k>>
Init == t \in 1..Len(Traces) /\ k = 0
Pending == k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]

Cl(what, props) == {<<what, props>>}
When(c, s) == IF c THEN s ELSE {}
Has(r, f) == f \in DOMAIN r

\* the orbitals of a system in order
Cand(l) == {<<n, m>> : n \in 0..(l - 1), m \in (-l)..l}
RECURSIVE SortB(_, _, _, _)
SortB(S, W, w, l) == IF l = 0 THEN <<>> ELSE
   LET First(x, y) == IF Before(x, y, W, w) THEN x ELSE y
       o == FoldSet(First, CHOOSE x \in S : TRUE, S) IN <<o>> \o SortB(S \ {o}, W, w, l - 1)
Orbs(e) == IF e.kind = "b" THEN SortB(Cand(e.l), e.W, e.w, e.l) ELSE [j \in 1..e.l |-> Orb(j - 1)]

KindProps(e) == CASE e.kind = "b" -> {"C16"} [] e.kind = "dw" -> {"C23"} [] OTHER -> {}

HErr(e, ob) ==
  LET l == e.l
      P == IF e.kind = "ho" THEN {"C12"} ELSE KindProps(e)
      \* fixed-point double-well element
      mw2 == FMul(FRat(e.mass[1], e.mass[2]), FSq(FRat(e.omega[1], e.omega[2])))
      bar == IF e.kind = "dw" THEN FRat(e.barrier[1], e.barrier[2]) ELSE 0
      Diag(p) == FMul(FRat(e.omega[1], e.omega[2]), Shell(ob[p]) * One) + FMul(mw2, FSq(bar)) \div 8
      X(p, q) == FMul(FMul(mw2, bar) \div 2, FDiv(AbsX(ob[p], ob[q], e.axis), FRat(e.sq[1], e.sq[2])))
      Exp(p, q) == IF e.kind = "dw" THEN (IF p = q THEN Diag(p) ELSE 0) - X(p, q)
                   ELSE IF p # q THEN 0 ELSE IF e.kind = "b" THEN EB(ob[p], e.W, e.w) ELSE Shell(ob[p])
      tol == IF e.kind = "dw" THEN 200 ELSE 0
  IN IF Len(e.h) = 0 THEN {} ELSE IF Len(e.h) # l * l THEN Cl("shape of h", P)
     ELSE UNION {LET p == (j - 1) \div l + 1  q == ((j - 1) % l) + 1 IN
                 When(~Near(e.h[j], Exp(p, q), tol) \/ e.hi[j] # 0,
                      Cl("h[" \o ToString(p - 1) \o "," \o ToString(q - 1) \o "] of " \o e.kind, P)) : j \in 1..(l * l)}
     \cup When(\E p \in 1..l, q \in 1..l : e.s[(p - 1) * l + q] # (IF p = q THEN 1 ELSE 0), Cl("overlap of " \o e.kind, P))
UErr(e, ob) ==
  LET l == e.l
      At(j) == LET i == j - 1 IN IF Has(e, "uq") THEN e.uq[j] ELSE <<i \div (l * l * l), (i \div (l * l)) % l, (i \div l) % l, i % l>>
      Bad == {j \in 1..Len(e.u) : LET x == At(j) IN ~CoulOK(e.u[j], ob[x[1] + 1], ob[x[2] + 1], ob[x[3] + 1], ob[x[4] + 1])}
      P == {"C13"} \cup KindProps(e)
  IN IF Len(e.u) = 0 THEN {} ELSE
     When(Len(e.u) # (IF Has(e, "uq") THEN Len(e.uq) ELSE l * l * l * l), Cl("shape of u", P))
     \cup When(Bad # {}, Cl("u of " \o e.kind \o ": element " \o ToString(At(CHOOSE j \in Bad : TRUE)) \o " and " \o
                            ToString(Cardinality(Bad) - 1) \o " others", P))
     \cup When(\E j \in 1..Len(e.ui) : e.ui[j] # 0, Cl("u of " \o e.kind \o " is not real", P))
DErr(e, ob) ==
  LET l == e.l
      P == {"C15"} \cup KindProps(e)
      B(F(_, _), obs) == {j \in 1..(l * l) : LET x == F(ob[(j - 1) \div l + 1], ob[((j - 1) % l) + 1]) IN obs[j] # x[1] * x[2]}
  IN IF Len(e.xr) = 0 THEN {} ELSE
     When(B(DipX, e.xr) # {}, Cl("x dipole of " \o e.kind, P))
     \cup When(B(DipY, e.yi) # {}, Cl("y dipole of " \o e.kind, P))
     \cup When(\E j \in 1..(l * l) : e.xi[j] # 0 \/ e.yr[j] # 0, Cl("x dipole not real or y dipole not imaginary, " \o e.kind, P))
FErr(e, ob) ==
  LET P == {"C15"} \cup KindProps(e)
      N == e.ng
      R(p, j) == LET x == FRat((j - 1) * e.rho[1], e.rho[2]) IN IF Has(e, "deep") THEN RadialR(ob[p], x) ELSE Radial(ob[p], x)
      RT == TLCEval([p \in 1..e.l |-> [j \in 1..N |-> R(p, j)]])
      Bad == {<<p, i, j>> \in (1..e.l) \X (1..N) \X (1..N) :
                LET ph == (24 \div (N - 1)) * (i - 1) * ob[p][2]
                    o == ((p - 1) * N + (i - 1)) * N + j IN
                ~Near(e.fr[o], FMul(RT[p][j], CosK(ph)), 150) \/ ~Near(e.fi[o], FMul(RT[p][j], SinK(ph)), 150)}
  IN IF N = 0 THEN {} ELSE
     When(Len(e.fr) # e.l * N * N, Cl("shape of functions", P))
     \cup (IF Len(e.fr) = e.l * N * N THEN When(Bad # {}, Cl("functions of " \o e.kind \o " at " \o ToString(CHOOSE x \in Bad : TRUE), P)) ELSE {})
LErr(e, ob) ==
  \* levels count the distinct energies below; degeneracies are complete except for the last level
  LET En(p) == EB(ob[p], e.W, e.w)
      lev(p) == Cardinality({En(q) : q \in {x \in 1..e.l : En(x) < En(p)}})
      deg(p) == Cardinality({q \in 1..e.l : En(q) = En(p)})
  IN IF e.kind # "b" THEN {} ELSE
     When(Has(e, "nm") /\ Len(e.nm) > 0 /\ \E p \in 1..e.l : e.nm[p] # ob[p], Cl("order of the states in a field", {"C16"}))
     \cup (IF Has(e, "lev") /\ Len(e.lev) > 0 THEN
          When(\E p \in 1..e.l : e.lev[p] # lev(p), Cl("level numbers", {"C16"}))
          \cup When(\E p \in 1..e.l : e.deg[p] < deg(p) \/ (En(p) < En(e.l) /\ e.deg[p] # deg(p)), Cl("degeneracies", {"C16"})) ELSE {})
SysErr(e) ==
  IF Has(e, "err") THEN Cl("construction failed: " \o e.err, {"C12", "C13", "C15"} \cup KindProps(e))
  ELSE LET ob == TLCEval(Orbs(e)) IN HErr(e, ob) \cup UErr(e, ob) \cup DErr(e, ob) \cup FErr(e, ob) \cup LErr(e, ob)

IdxErr(e) ==
  CASE e.op = "idx" -> UNION {When(e.nm[j] # Orb(e.p[j]), Cl("quantum numbers of " \o ToString(e.p[j]), {"C12"}))
                              \cup When(e.back[j] # e.p[j], Cl("index of quantum numbers of " \o ToString(e.p[j]), {"C12"})) : j \in 1..Len(e.p)}
    [] e.op = "inv" -> UNION {When(e.p[j] # Index(e.nm[j]), Cl("index of " \o ToString(e.nm[j]), {"C12"}))
                              \cup When(e.back[j] # e.nm[j], Cl("quantum numbers of index of " \o ToString(e.nm[j]), {"C12"})) : j \in 1..Len(e.p)}
    [] e.op = "he" -> UNION {When(e.d[j] # Shell(Orb(j - 1)), Cl("one-body energy of " \o ToString(j - 1), {"C12"})) : j \in 1..Len(e.d)}
                      \cup When(~e.diag, Cl("one-body Hamiltonian not diagonal", {"C12"}))
    [] e.op = "uel" -> \* single Coulomb elements between given orbitals
         UNION {When(~CoulOK(e.w[j], e.o[j][1], e.o[j][2], e.o[j][3], e.o[j][4]), Cl("Coulomb element " \o ToString(e.o[j]), {"C13"})) : j \in 1..Len(e.w)}
    [] OTHER -> {}
Errs == IF Ev.op = "sys" THEN SysErr(Ev) ELSE IdxErr(Ev)

Conform == Pending => \A c \in Errs :
   PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c[1], props |-> c[2]]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))
Next == Pending /\ k' = k + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
