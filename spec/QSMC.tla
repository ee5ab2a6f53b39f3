-------------------------------- MODULE QSMC --------------------------------
(* The lifecycle of basis sets and systems as a state machine over small    *)
(* concrete tensors, explored exhaustively to check the listed properties on *)
(* the design and that it refines QSLife (from which histories for the real  *)
(* code are generated).                                                      *)
EXTENDS QS, FiniteSets

CONSTANTS MaxB, MaxS, \* bound on basis sets / systems
          MaxLen,     \* bound on the number of operations
          Start       \* which initial basis sets (indices into Inits)

VARIABLES B,    \* basis sets: sequence of records
          S,    \* systems: sequence of records (field b indexes B)
          G,    \* ghost, per basis: see G0
          T,    \* attached time-evolution operators, per system
          len,  \* number of operations so far
          last  \* objects the last operation may have changed
vars == <<B, S, G, T, len, last>>

E2(re, im) == [sh |-> <<2, 2>>, re |-> re, im |-> im]
\* two initial basis sets: Hermitian with exchange symmetric u; and a rough one
h1 == E2(<<1, 0, 0, 2>>, <<0, 1, -1, 0>>)
s1 == E2(<<2, 1, 1, 1>>, <<0, 0, 0, 0>>)
u0 == Build(<<2, 2, 2, 2>>, LAMBDA k : <<((k * 5) % 3) - 1, ((k * 7) % 3) - 1>>)
\* exchange symmetric and Hermitian: u[pqrs] = u[qpsr] = conj(u[rspq])
u1 == LET x == TAdd(u0, SwapBoth(u0)) IN
      TAdd(x, TConj(Perm4(x, LAMBDA d : <<d[3], d[4], d[1], d[2]>>)))
d1 == [sh |-> <<1, 2, 2>>, re |-> <<0, 1, 1, -1>>, im |-> <<0, 2, -2, 0>>]
f1 == [sh |-> <<2, 3>>, re |-> <<1, 0, 2, -1, 1, 0>>, im |-> <<0, 1, 0, 2, 0, 1>>]
Blank == [l |-> 2, dim |-> 1, h |-> h1, s |-> s1, u |-> u1, dip |-> d1, spf |-> f1, bra |-> TConj(f1),
          sx |-> NoT, sy |-> NoT, sz |-> NoT, s2 |-> NoT, s2tb |-> NoT,
          spin |-> FALSE, anti |-> FALSE, enuc |-> 3, grid |-> NoT]
Basis1 == Blank
Basis2 == [Blank EXCEPT !.h = E2(<<1, 2, 0, -1>>, <<1, 0, 1, 0>>), !.s = Id(2), !.u = u0, !.dip = NoT,
                        !.spf = NoT, !.bra = NoT]
Basis3 == [Blank EXCEPT !.s = Id(2)]
Inits == <<Basis1, Basis2, Basis3>>

\* coefficient matrices by shape; the first of each list is an isometry
Cs(l) ==
  IF l = 2 THEN {E2(<<0, 1, 1, 0>>, <<0, 0, 0, 0>>), E2(<<1, 0, 0, 0>>, <<0, 0, 0, 1>>), E2(<<1, 1, 0, 1>>, <<0, 0, 1, 0>>),
                 [sh |-> <<2, 1>>, re |-> <<1, 0>>, im |-> <<0, 1>>]}
  ELSE IF l = 1 THEN {[sh |-> <<1, 1>>, re |-> <<0>>, im |-> <<1>>],
                      [sh |-> <<1, 2>>, re |-> <<1, 1>>, im |-> <<0, 1>>]}
  ELSE {Build(<<l, l>>, LAMBDA k : IF ((k - 1) \div l) + ((k - 1) % l) = l - 1 THEN <<0, 1>> ELSE <<0, 0>>),
        Build(<<l, l - 1>>, LAMBDA k : IF (k - 1) \div (l - 1) = (k - 1) % (l - 1) THEN <<1, 0>>
                                       ELSE IF (k - 1) \div (l - 1) = l - 1 THEN <<0, 1>> ELSE <<0, 0>>)}
\* a bra matrix unrelated to C
Other(C) == Build(<<C.sh[2], C.sh[1]>>, LAMBDA k : IF k % 3 = 0 THEN <<0, 1>> ELSE <<1, 0>>)

Up == <<<<1, 0>>, <<0, 0>>>>   Down == <<<<0, 0>>, <<1, 0>>>>
Tilt == <<<<3, 0>>, <<0, 4>>>>  Tilt2 == <<<<0, 4>>, <<3, 0>>>>   \* (3, 4i)/5, (4i, 3)/5
Pairs == {[A |-> Up, Bv |-> Down, den |-> 1], [A |-> Tilt, Bv |-> Tilt2, den |-> 5]}

Ids(q) == 1..Len(q)
UsedBy(i) == {s \in Ids(S) : S[s].b = i}

\* Ghost of a basis: base = record right after creation / conversion, acc and act = the product of the
\* coefficient matrices applied since, den = denominator of its spin pair, ta = the anti flag came up
\* through a genuine anti-symmetrisation of spin-orbital (or never converted) elements.
G0(b) == [base |-> b, acc |-> Id(b.l), act |-> Id(b.l), den |-> 1, ta |-> FALSE]

Init == \E b \in {Inits[j] : j \in Start} :
  /\ B = <<b>> /\ S = <<>> /\ T = <<>> /\ G = <<G0(b)>>
  /\ len = 0 /\ last = [op |-> "Init", b |-> {}, s |-> {}]

\* conversion of basis record b, with its ghost
ConvG(b, g, nb, pr, an) ==
  IF b.spin THEN [g EXCEPT !.base = IF an /\ nb.anti THEN BAnti(g.base) ELSE g.base, !.ta = g.ta \/ (nb.anti /\ ~b.anti)]
  ELSE [G0(nb) EXCEPT !.den = pr.den, !.ta = nb.anti /\ ~b.anti]

Double(i) == \E pr \in Pairs, an \in BOOLEAN :
  /\ UsedBy(i) = {}      \* a basis owned by a system is converted through the system
  /\ \E nb \in {BDouble(B[i], pr.A, pr.Bv, pr.den, an, FALSE)} :
     /\ B' = [B EXCEPT ![i] = nb]
     /\ G' = [G EXCEPT ![i] = IF B[i].spin THEN G[i] ELSE ConvG(B[i], G[i], nb, pr, an)]
  /\ UNCHANGED <<S, T>>
  /\ last' = [op |-> "Double", b |-> {i}, s |-> {}]

Anti(i) ==
  /\ \E nb \in {BAnti(B[i])} : B' = [B EXCEPT ![i] = nb]
  /\ \E nb \in {BAnti(G[i].base)} : G' = [G EXCEPT ![i].base = nb, ![i].ta = G[i].ta \/ ~B[i].anti]
  /\ UNCHANGED <<S, T>>
  /\ last' = [op |-> "Anti", b |-> {i}, s |-> {}]

ChangeTo(i, C, Ct) == \E nb \in {BChange(B[i], C, Ct)} : \E c \in {MatMul(G[i].acc, C)}, d \in {MatMul(Ct, G[i].act)} :
  /\ B' = [B EXCEPT ![i] = nb]
  /\ G' = [G EXCEPT ![i].acc = c, ![i].act = d]

Change(i) == UsedBy(i) = {} /\ \E C \in Cs(B[i].l), bi \in BOOLEAN : \E Ct \in {IF bi THEN Other(C) ELSE Adj(C)} :
  /\ ChangeTo(i, C, Ct)
  /\ UNCHANGED <<S, T>>
  /\ last' = [op |-> "Change", b |-> {i}, s |-> {}]

SysChange(s) == \E i \in {S[s].b} : \E C \in Cs(B[i].l), bi \in BOOLEAN : \E Ct \in {IF bi THEN Other(C) ELSE Adj(C)} :
  /\ Cardinality(UsedBy(i)) = 1
  /\ S[s].n <= C.sh[2]
  /\ ChangeTo(i, C, Ct)
  /\ S' = [S EXCEPT ![s] = SysRec(S[s].kind, i, S[s].n, C.sh[2])]
  /\ UNCHANGED T
  /\ last' = [op |-> "SysChange", b |-> {i}, s |-> {s}]

CopyB(i) == Len(B) < MaxB /\
  /\ B' = Append(B, B[i]) /\ G' = Append(G, G[i]) /\ UNCHANGED <<S, T>>
  /\ last' = [op |-> "CopyB", b |-> {Len(B) + 1}, s |-> {}]

NewSpas(i) == Len(S) < MaxS /\ UsedBy(i) = {} /\ \E N \in 0..(2 * B[i].l) :
  /\ SpasOK(B[i], N)
  /\ S' = Append(S, SysRec("spas", i, N \div 2, B[i].l)) /\ T' = Append(T, NoTeo)
  /\ UNCHANGED <<B, G>>
  /\ last' = [op |-> "NewSpas", b |-> {}, s |-> {Len(S) + 1}]

NewGos(i) == Len(S) < MaxS /\ UsedBy(i) = {} /\ \E pr \in Pairs, an \in BOOLEAN, n \in {1, 2} :
  /\ GosOK(B[i], n)
  /\ \E nb \in {GosBasis(B[i], pr.A, pr.Bv, pr.den, an, FALSE)} :
     /\ B' = [B EXCEPT ![i] = nb]
     /\ G' = [G EXCEPT ![i] = ConvG(B[i], G[i], nb, pr, an)]
     /\ S' = Append(S, SysRec("gos", i, n, nb.l)) /\ T' = Append(T, NoTeo)
  /\ last' = [op |-> "NewGos", b |-> {i}, s |-> {Len(S) + 1}]

MkGos(s) == Len(S) < MaxS /\ Len(B) < MaxB /\ S[s].kind = "spas" /\ \E pr \in Pairs, an \in BOOLEAN, i \in {S[s].b} :
  \E nb \in {GosBasis(B[i], pr.A, pr.Bv, pr.den, an, FALSE)} :
  /\ B' = Append(B, nb) /\ G' = Append(G, ConvG(B[i], G[i], nb, pr, an))
  /\ S' = Append(S, SysRec("gos", Len(B) + 1, 2 * S[s].n, nb.l)) /\ T' = Append(T, T[s])
  /\ last' = [op |-> "MkGos", b |-> {Len(B) + 1}, s |-> {Len(S) + 1}]

CopyS(s) == Len(S) < MaxS /\ Len(B) < MaxB /\
  /\ B' = Append(B, B[S[s].b]) /\ G' = Append(G, G[S[s].b])
  /\ S' = Append(S, [S[s] EXCEPT !.b = Len(B) + 1]) /\ T' = Append(T, T[s])
  /\ last' = [op |-> "CopyS", b |-> {Len(B) + 1}, s |-> {Len(S) + 1}]

SetTeo(s) == \E ty \in {"none", "laser", "adia", "custom"} :
  /\ ty = "laser" => Present(B[S[s].b].dip)
  /\ T' = [T EXCEPT ![s] = IF ty = "laser" THEN [ty |-> ty, w |-> <<<<2, 0>>>>, wd |-> 1, pol |-> <<>>]
                           ELSE IF ty = "adia" THEN [ty |-> ty, w |-> <<<<2, 0>>>>]
                           ELSE IF ty = "custom" THEN [ty |-> ty, w |-> <<<<0, 1>>>>, wd |-> 1, O |-> B[S[s].b].h] ELSE NoTeo]
  /\ UNCHANGED <<B, S, G>>
  /\ last' = [op |-> "SetTeo", b |-> {}, s |-> {s}]

\* A rejected request (and every query) changes nothing.
Reject == UNCHANGED <<B, S, G, T>> /\ last' = [op |-> "Reject", b |-> {}, s |-> {}]

Next == len < MaxLen /\ len' = len + 1 /\
        (\/ \E i \in Ids(B) : Double(i) \/ Anti(i) \/ Change(i) \/ CopyB(i) \/ NewSpas(i) \/ NewGos(i)
         \/ \E s \in Ids(S) : SysChange(s) \/ MkGos(s) \/ CopyS(s) \/ SetTeo(s)
         \/ Reject)
Spec == Init /\ [][Next]_vars
View == <<B, S, G, T, last>>

\* QSMC implements the lifecycle without numbers
Life == INSTANCE QSLife WITH bs <- [i \in Ids(B) |-> [spin |-> B[i].spin, anti |-> B[i].anti]],
                             ss <- [s \in Ids(S) |-> [kind |-> S[s].kind, b |-> S[s].b, teo |-> T[s].ty]]
RefinesLife == Life!LSpec

---------------------------------------------------------------------------
(* The listed properties on the design *)
\* C01
InvSizes == /\ \A i \in Ids(B) : WellShaped(B[i])
            /\ \A s \in Ids(S) : PartitionOK(S[s], B[S[s].b])
\* C02: any sequence of basis changes is one basis change with the product matrices
InvCovariant == \A i \in Ids(B) : B[i] = BChange(G[i].base, G[i].acc, G[i].act)
\* C02/C03: Hermiticity survives Hermitian basis changes and doubling
InvHermitian == \A i \in Ids(B) : (G[i].act = Adj(G[i].acc) /\ IsHermitian(G[i].base.h)) => IsHermitian(B[i].h)
\* C04: anti status is the truth
InvAnti == \A i \in Ids(B) : (G[i].ta /\ B[i].anti /\ IsExch(B[i].u)) => IsAnti(B[i].u)
InvExch == \A i \in Ids(B) : IsExch(G[i].base.u) => IsExch(B[i].u)
\* C05: spin algebra, in units 1/(2 den^2): [Sx,Sy] = i Sz  (orthonormal orbitals, right after conversion)
Commute(X, Y, Z, d2) == TSub(MatMul(X, Y), MatMul(Y, X)) = TScale(<<0, 2 * d2>>, Z)
InvSpin == \A i \in Ids(B) : LET b == B[i]  d2 == G[i].den * G[i].den IN
   (Present(b.sx) /\ b.s = Id(b.l) /\ b = G[i].base) =>
      /\ Commute(b.sx, b.sy, b.sz, d2) /\ Commute(b.sy, b.sz, b.sx, d2) /\ Commute(b.sz, b.sx, b.sy, d2)
      /\ IsHermitian(b.sx) /\ IsHermitian(b.sy) /\ IsHermitian(b.sz)
      /\ TAdd(TAdd(MatMul(b.sx, b.sx), MatMul(b.sy, b.sy)), MatMul(b.sz, b.sz)) = TInt(d2 * d2, b.s2)
\* C06: a closed-shell system and the anti-symmetrised general one built from it have the same energy
InvEnergy == \A s \in Ids(S), t \in Ids(S) :
   (/\ S[s].kind = "spas" /\ S[t].kind = "gos" /\ S[t].n = 2 * S[s].n
    /\ B[S[t].b].anti /\ B[S[t].b].u = AntiSym(Dbl2(B[S[s].b].u)) /\ B[S[t].b].h = Dbl1(B[S[s].b].h))
   => /\ Energy2(S[s], B[S[s].b]) = Energy2(S[t], B[S[t].b])
      /\ Dbl1(Fock("spas", S[s].n, B[S[s].b].h, B[S[s].b].u)) = Fock("gos", S[t].n, B[S[t].b].h, B[S[t].b].u)
\* C06: 2E = tr_occ(h + f)
InvFock == \A s \in Ids(S) : LET b == B[S[s].b]  f == Fock(S[s].kind, S[s].n, b.h, b.u) IN
   Energy2(S[s], b) = (IF S[s].kind = "gos" THEN CAdd(Sum1(b.h, S[s].n), Sum1(f, S[s].n))
                       ELSE CInt(2, CAdd(Sum1(b.h, S[s].n), Sum1(f, S[s].n))))
\* C09: the density integrates (on the model grid) consistently: transforming with C equals changing the basis
InvDensity == \A i \in Ids(B) : Present(B[i].spf) =>
   LET b == B[i]  C == CHOOSE C \in Cs(b.l) : TRUE  rho == Id(C.sh[2])  bb == BChange(b, C, Adj(C)) IN
   Density(rho, LMul(Tr(C), b.spf), LMul(Adj(C), b.bra)) = Density(rho, bb.spf, bb.bra)
\* C09: Hermitian bras remain the conjugates of the kets
InvBra == \A i \in Ids(B) : (Present(B[i].spf) /\ G[i].act = Adj(G[i].acc) /\ G[i].base.bra = TConj(G[i].base.spf)) => B[i].bra = TConj(B[i].spf)
\* C08
InvTeo == \A s \in Ids(S) : LET b == B[S[s].b] IN
   /\ ~Has1(T[s]) => Ht(T[s], 1, b) = b.h
   /\ ~Has2(T[s]) => Ut(T[s], 1, b) = b.u
   /\ (T[s].ty = "custom" /\ T[s].O.sh = b.h.sh) => TSub(Ht(T[s], 1, b), b.h) = TScale(<<0, 1>>, T[s].O)
   /\ (T[s].ty = "laser") => TSub(Ht(T[s], 1, b), b.h) = TInt(2, Comp(b.dip, 1))
\* C07 / C10: an operation changes only the objects it names
Frame == [][/\ \A i \in Ids(B) : i \notin last'.b => B'[i] = B[i]
            /\ \A s \in Ids(S) : s \notin last'.s => S'[s] = S[s] /\ T'[s] = T[s]]_vars

=============================================================================
