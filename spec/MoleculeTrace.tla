--------------------------- MODULE MoleculeTrace ----------------------------
(* Conformance of molecular systems with Molecule.  Events:                  *)
(*   ao   the atomic-orbital system against the integrals e.h0, s0, e0, r0   *)
(*   mo   a system in the basis of coefficients C (signs e.sg free), dipole   *)
(*        relative to e.cen                                                  *)
(*   hf   reference energy, Fock matrix, overlap of the Hartree-Fock system   *)
(*   gos  spin-doubled version of a spatial system                           *)
EXTENDS Molecule, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
VARIABLES t, k
vars == <<t, k>>
Init == t \in 1..Len(Traces) /\ k = 0
Pending == k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]
When(c, s) == IF c THEN {s} ELSE {}
NearS(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j], b[j], tol)
Tag(e, what) == what \o " (" \o e.who \o ")"

Shapes(e) == LET l == e.l IN Len(e.h) = l * l /\ Len(e.s) = l * l /\ Len(e.u) = l * l * l * l /\ Len(e.d) = 3 * l * l
AoErr(e) == LET l == e.l  I == 1..l IN
  IF ~Shapes(e) THEN {Tag(e, "shapes")} ELSE
  When(~NearS(e.h, e.h0, 5), Tag(e, "one-body elements")) \cup When(~NearS(e.s, e.s0, 5), Tag(e, "overlap"))
  \cup When(~NearS(e.d, e.r0, 5), Tag(e, "dipole elements")) \cup When(~Near(e.enuc, e.enuc0, 5), Tag(e, "nuclear repulsion"))
  \cup When(\E p \in I, q \in I, r \in I, s \in I : ~Near(A4(e.u, l, p, q, r, s), Phys(e.e0, l, p, q, r, s), 5), Tag(e, "two-body elements"))
  \cup When(\E p \in I, q \in I, r \in I, s \in I : ~Near(A4(e.u, l, p, q, r, s), A4(e.u, l, r, q, p, s), 5)
                                                  \/ ~Near(A4(e.u, l, p, q, r, s), A4(e.u, l, q, p, s, r), 5), Tag(e, "symmetry of the two-body elements"))
  \cup When(e.nocc # e.n, Tag(e, "number of occupied orbitals")) \cup When(~e.real, Tag(e, "elements not real"))
MoErr(e) == LET l == e.l  I == 1..l  g == e.sg
                Sl(m, c) == SubSeq(m, (c - 1) * l * l + 1, c * l * l)
                s1 == Change2(e.s0, e.C, l)
                h1 == Change2(e.h0, e.C, l)
                u1 == Change4(e.e0, e.C, l)
                Same2(m, f, tol) == \A p \in I, q \in I : Near(A2(m, l, p, q), g[p] * g[q] * A2(f, l, p, q), tol)
            IN
  IF ~Shapes(e) THEN {Tag(e, "shapes")} ELSE
  When(~Same2(e.h, h1, e.tol), Tag(e, "one-body elements")) \cup When(~Same2(e.s, s1, e.tol), Tag(e, "overlap"))
  \cup When(\E c \in 1..3 : LET r1 == Change2(Sl(e.r0, c), e.C, l) IN \E p \in I, q \in I :
              ~Near(A2(Sl(e.d, c), l, p, q), g[p] * g[q] * (A2(r1, l, p, q) - FMul(e.cen[c], A2(s1, l, p, q))), e.tol), Tag(e, "dipole elements"))
  \cup When(\E p \in I, q \in I, r \in I, s \in I :
              ~Near(A4(e.u, l, p, q, r, s), g[p] * g[q] * g[r] * g[s] * Phys(u1, l, p, q, r, s), e.tol), Tag(e, "two-body elements"))
  \cup When(~Near(e.enuc, e.enuc0, 5), Tag(e, "nuclear repulsion")) \cup When(e.nocc # e.n, Tag(e, "number of occupied orbitals"))
HfErr(e) == LET l == e.l  I == 1..l IN
  IF Len(e.s) # l * l \/ Len(e.f) # l * l THEN {Tag(e, "shapes")} ELSE
  When(\E p \in I, q \in I : ~Near(A2(e.s, l, p, q), D(p, q) * One, 30), Tag(e, "not orthonormal"))
  \cup When(\E p \in I, q \in I : p # q /\ ~Near(A2(e.f, l, p, q), 0, e.tol), Tag(e, "Fock matrix not diagonal"))
  \cup When(\E p \in I : ~Near(A2(e.f, l, p, p), e.mo[p], e.tol), Tag(e, "Fock diagonal is not the orbital energies"))
  \cup When(~Near(e.eref + e.enuc, e.etot, 60), Tag(e, "reference energy plus nuclear repulsion is not the SCF energy"))
  \cup When(~Near(e.enuc, e.enuc0, 5), Tag(e, "nuclear repulsion")) \cup When(e.nocc # e.n, Tag(e, "number of occupied orbitals"))
  \cup When(Len(e.h) = l * l /\ Len(e.u) = l * l * l * l /\ ~Near(ERef(e.h, e.u, l, e.nocc), e.eref, 200), Tag(e, "reference energy of the elements"))
  \cup When(Len(e.h) = l * l /\ Len(e.u) = l * l * l * l /\ \E p \in I, q \in I : ~Near(FockE(e.h, e.u, l, e.nocc, p, q), A2(e.f, l, p, q), 200), Tag(e, "Fock matrix of the elements"))
GosErr(e) == LET m == e.l  l == 2 * m  I == 1..l  g == e.sg
                 P(x) == ((x - 1) \div 2) + 1
                 S(x, y) == D((x - 1) % 2, (y - 1) % 2)
                 Sl(w, n, c) == SubSeq(w, (c - 1) * n * n + 1, c * n * n)
                 Two(w, f, tol) == \A p \in I, q \in I : Near(A2(w, l, p, q), S(p, q) * g[P(p)] * g[P(q)] * A2(f, m, P(p), P(q)), tol)
                 U(p, q, r, s) == S(p, r) * S(q, s) * g[P(p)] * g[P(q)] * g[P(r)] * g[P(s)] * A4(e.u, m, P(p), P(q), P(r), P(s))
             IN
  IF Len(e.h2) # l * l \/ Len(e.s2) # l * l \/ Len(e.u2) # l * l * l * l \/ Len(e.d2) # 3 * l * l THEN {Tag(e, "shapes of the spin-doubled system")} ELSE
  When(~Two(e.h2, e.h, 60), Tag(e, "one-body elements with spin")) \cup When(~Two(e.s2, e.s, 60), Tag(e, "overlap with spin"))
  \cup When(\E c \in 1..3 : ~Two(Sl(e.d2, l, c), Sl(e.d, m, c), 100), Tag(e, "dipole elements with spin"))
  \cup When(\E p \in I, q \in I, r \in I, s \in I : ~Near(A4(e.u2, l, p, q, r, s), U(p, q, r, s) - (IF e.anti THEN U(p, q, s, r) ELSE 0), 100), Tag(e, "two-body elements with spin"))
  \cup When(e.nocc2 # 2 * e.nocc, Tag(e, "number of particles with spin")) \cup When(e.isanti # e.anti, Tag(e, "anti-symmetrised elements"))
  \cup When(~Near(e.enuc2, e.enuc, 5), Tag(e, "nuclear repulsion with spin"))
  \cup When(~Near(e.eref2, e.eref, 100), Tag(e, "reference energy with spin"))
Errs == IF Ev.err # "" THEN {Tag(Ev, Ev.err)} ELSE
        CASE Ev.op = "ao" -> AoErr(Ev) [] Ev.op = "mo" -> MoErr(Ev) [] Ev.op = "hf" -> HfErr(Ev) [] Ev.op = "gos" -> GosErr(Ev) [] OTHER -> {}
Conform == Pending => \A c \in Errs :
   PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c, props |-> {"C22"}]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))
Next == Pending /\ k' = k + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
