---------------------------- MODULE QSWideTrace -----------------------------
(* Conformance of recorded histories on large basis sets with QSWide.        *)
EXTENDS QSWide, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
VARIABLES t, k, W, S      \* wide bases and systems
vars == <<t, k, W, S>>
Init == t \in 1..Len(Traces) /\ k = 0 /\ W = <<>> /\ S = <<>>
Pending == k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]
Cl(what, props) == {<<what, props>>}
When(c, s) == IF c THEN s ELSE {}

NewW(e) == [b |-> [l |-> e.l, dim |-> e.dim, h |-> e.h, s |-> e.s, u |-> NoT, dip |-> e.dip, spf |-> e.spf, bra |-> e.bra,
                   sx |-> NoT, sy |-> NoT, sz |-> NoT, s2 |-> NoT, s2tb |-> NoT, spin |-> FALSE, anti |-> FALSE], A |-> e.P, T |-> <<>>]
Sys(kind, i, n, l) == SysRec(kind, i, n, l)
Dbl(w, e) == WDouble(w, e.A, e.Bp, 1, e.anti)
Gos(w, e) == LET d == Dbl(w, e) IN IF e.anti THEN WAnti(d) ELSE d
\* the state after an accepted request
NextW(e) ==
  CASE e.op = "New" -> Append(W, NewW(e))
    [] e.op = "Change" -> [W EXCEPT ![e.b] = WChange(@, e.C, e.Ct)]
    [] e.op = "SysChange" -> [W EXCEPT ![S[e.s].b] = WChange(@, e.C, e.Ct)]
    [] e.op = "Double" -> [W EXCEPT ![e.b] = Dbl(@, e)]
    [] e.op = "Anti" -> [W EXCEPT ![e.b] = WAnti(@)]
    [] e.op = "CopyB" -> Append(W, W[e.b])
    [] e.op = "CopyS" -> Append(W, W[S[e.s].b])
    [] e.op = "NewGos" -> [W EXCEPT ![e.b] = Gos(@, e)]
    [] e.op = "MkGos" -> Append(W, Gos(W[S[e.s].b], e))
    [] OTHER -> W
NextS(e, V) ==
  CASE e.op = "NewSpas" -> Append(S, Sys("spas", e.b, e.N \div 2, V[e.b].b.l))
    [] e.op = "NewGos" -> Append(S, Sys("gos", e.b, e.n, V[e.b].b.l))
    [] e.op = "MkGos" -> Append(S, Sys("gos", Len(V), 2 * S[e.s].n, V[Len(V)].b.l))
    [] e.op = "CopyS" -> Append(S, [S[e.s] EXCEPT !.b = Len(V)])
    [] e.op = "SysChange" -> [S EXCEPT ![e.s] = Sys(@.kind, @.b, @.n, e.C.sh[2])]
    [] OTHER -> S
Target(e) == CASE e.op \in {"Change", "Double", "Anti", "NewGos"} -> e.b
               [] e.op = "SysChange" -> S[e.s].b
               [] e.op \in {"New", "CopyB", "CopyS", "MkGos"} -> Len(W) + 1
               [] OTHER -> 0
FieldProps(e, f) == CASE e.op \in {"Change", "SysChange"} -> {"C02"}
                      [] e.op \in {"Double", "NewGos", "MkGos"} -> IF f \in {"sx", "sy", "sz", "s2", "s2tb"} THEN {"C05"} ELSE IF f = "u" THEN {"C03", "C04"} ELSE {"C03"}
                      [] e.op = "Anti" -> IF f = "s2tb" THEN {"C04", "C05"} ELSE {"C04"}
                      [] e.op = "New" -> {"C02"}
                      [] OTHER -> {"C07"}

\* a recorded four-index array against sums of products
FourBad(o, P, anti, l) ==
  IF P = <<>> THEN o.sh # <<>>
  ELSE \/ o.sh # <<l, l, l, l>>
       \/ \E j \in 1..Len(o.ix) : Elem(P, anti, o.ix[j][1], o.ix[j][2], o.ix[j][3], o.ix[j][4]) # <<o.re[j], o.im[j]>>
       \/ \E j \in 1..Len(o.w) : WSum(P, anti, o.w[j][1], o.w[j][2], o.w[j][3], o.w[j][4]) # <<o.wr[j], o.wi[j]>>

Fields == {"h", "s", "dip", "spf", "bra", "sx", "sy", "sz", "s2"}
BErr(e, i, w, o) ==
  LET hit == i = Target(e)
      P(f) == IF hit THEN FieldProps(e, f) ELSE {"C07"}
      N == " of a large basis set (l = " \o ToString(w.b.l) \o ") after " \o e.op \o (IF hit THEN "" ELSE " of another") IN
  When(o.l # w.b.l, Cl("size" \o N, {"C01"} \cup P("l")))
  \cup When(\E f \in Fields : o[f].sh # w.b[f].sh, Cl("shapes" \o N, {"C01"} \cup P("h")))
  \cup UNION {When(o[f] # w.b[f], Cl(f \o N, P(f))) : f \in Fields}
  \cup When(o.spin # w.b.spin, Cl("includes_spin" \o N, {"C03"} \cup P("h")))
  \cup When(o.anti # w.b.anti, Cl("anti_symmetrized_u" \o N, {"C04"} \cup P("h")))
  \cup When(FourBad(o.u, w.A, w.b.anti, w.b.l), Cl("u" \o N, P("u") \cup (IF o.u.sh # <<w.b.l, w.b.l, w.b.l, w.b.l>> THEN {"C01"} ELSE {})))
  \cup When(FourBad(o.s2tb, w.T, w.b.anti, w.b.l), Cl("spin_2_tb" \o N, P("s2tb")))
SErr(e, j, s, o) ==
  When(o.n # s.n \/ o.l # s.l \/ o.m # s.m \/ o.o # s.o \/ o.v # s.v, Cl("partition of system " \o ToString(j) \o " after " \o e.op, {"C01"}))
  \cup When(~o.view, Cl("elements handed out by system " \o ToString(j) \o " after " \o e.op, {"C24"}))
RetErr(e) ==
  CASE e.op = "Energy" -> LET s == S[e.s] IN When(e.ret # WEnergy2(s.kind, s.n, W[s.b]), Cl("reference energy of a large system", {"C06"}))
    [] e.op = "Fock" -> LET s == S[e.s]  w == W[s.b] IN When(e.ret # WFock(s.kind, s.n, w.b.h, w.A, w.b.anti), Cl("Fock matrix of a large system", {"C06"}))
    [] e.op = "Density" -> When(e.ret # Density(e.rho, W[e.b].b.spf, W[e.b].b.bra), Cl("particle density of a large basis set", {"C09"}))
    [] e.op = "GetT" -> LET w == W[e.b]  Ct == Adj(e.C)  X1(M) == SXf(M, e.C, Ct) IN
         When(e.rh # X1(w.b.h) \/ FourBad(e.ru, MapP(w.A, X1), w.b.anti, e.C.sh[2]), Cl("transformed elements of a large basis set", {"C02", "C27"}))
    [] e.op = "Help" ->
         LET l == e.C.sh[1]  m == e.C.sh[2]
             X1(M) == SXf(M, e.C, IF e.fn = "x2" THEN Adj(e.C) ELSE e.Ct)
             bad == CASE e.fn \in {"x2", "x2t"} -> FourBad(e.r, MapP(e.P, X1), FALSE, m)
                      [] e.fn = "anti" -> FourBad(e.r, e.P, TRUE, l)
                      [] e.fn = "two" -> FourBad(e.r, MapP(e.P, Dbl1), FALSE, 2 * l)
                      [] OTHER -> FourBad(e.r, <<<<e.P[1][1], e.P[1][1]>>, <<e.P[2][1], e.P[2][1]>>, <<e.P[1][2], e.P[1][2]>>>>, FALSE, l)
         IN When(bad \/ ~e.pure, Cl("helper " \o e.fn \o " on large arrays (l = " \o ToString(l) \o ")", {"C27"}))
    [] OTHER -> {}
OpProps(e) == CASE e.op \in {"Change", "SysChange"} -> {"C02"} [] e.op \in {"Double", "NewGos", "MkGos"} -> {"C03"} [] e.op = "Anti" -> {"C04"}
                [] e.op \in {"Energy", "Fock"} -> {"C06"} [] e.op = "Density" -> {"C09"} [] e.op = "GetT" -> {"C02", "C27"} [] e.op = "Help" -> {"C27"}
                [] e.op \in {"CopyB", "CopyS"} -> {"C07"} [] OTHER -> {"C01"}
Errs(e, V, R) ==
  IF e.out # "ok" THEN Cl(e.op \o " on a large basis set: " \o e.out, OpProps(e))
  ELSE (IF Len(e.B) # Len(V) \/ Len(e.S) # Len(R) THEN Cl("objects", {"C01"})
        ELSE UNION {BErr(e, i, V[i], e.B[i]) : i \in 1..Len(V)} \cup UNION {SErr(e, j, R[j], e.S[j]) : j \in 1..Len(R)})
       \cup RetErr(e)
\* each event is judged once, in the step that consumes it
Next == /\ Pending /\ k' = k + 1 /\ t' = t
        /\ IF Ev.out # "ok" THEN W' = W /\ S' = S ELSE W' = NextW(Ev) /\ S' = NextS(Ev, W')
        /\ \A c \in Errs(Ev, W', S') : PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c[1], props |-> c[2]]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))
Spec == Init /\ [][Next]_vars
=============================================================================
