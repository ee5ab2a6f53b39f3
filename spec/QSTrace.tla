------------------------------ MODULE QSTrace ------------------------------
(* Conformance of recorded executions of the real code with QS.             *)
(*                                                                          *)
(* The file named by the environment variable TRACE holds                   *)
(*   [traces |-> sequence of [id, opaque, ev]]                              *)
(* where every event ev[k] is one request made to the library together with *)
(* its outcome ("ok" or "err"), the value returned, and the full observed   *)
(* record of every basis set (cb) and system (cs) whose observable state    *)
(* differs from the previous observation.  For every event the operations   *)
(* of QS are applied to the previously observed state; each clause in which *)
(* the observation disagrees is printed together with the properties it     *)
(* violates, and the walk goes on from what was observed.                   *)
EXTENDS QS, Json, IOUtils, FiniteSets

Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
NT == Len(Traces)

VARIABLES t,    \* index of the trace
          k,    \* number of events validated
          B, S, \* observed state
          T,    \* attached time-evolution operators
          H,    \* per basis: spin denominator, whether the anti flag is by request on a spin basis
          Org,  \* per system: TRUE when it was made by copying
          stop  \* TRUE when the observed state no longer supports evaluation
vars == <<t, k, B, S, T, H, Org, stop>>
View == <<t, k>>

Bad == 2000000011    \* recorder's mark for a value that is not in range / not a multiple of the unit

Init == /\ t \in 1..NT /\ k = 0 /\ B = <<>> /\ S = <<>> /\ T = <<>> /\ H = <<>> /\ Org = <<>> /\ stop = FALSE

Has(r, f) == f \in DOMAIN r
TField == {"h", "s", "u", "dip", "spf", "bra", "sx", "sy", "sz", "s2", "s2tb", "grid"}
\* aux stands for all other public attributes (numbers for contents)
Pres(b) == {f \in TField \ {"grid"} : Present(b[f])}

-----------------------------------------------------------------------------
(* Which properties a disagreement belongs to *)
SpinF == {"sx", "sy", "sz", "s2", "s2tb"}
FieldProps(op, f) ==
  CASE op \in {"Double", "NewGos", "MkGos"} ->
         (CASE f = "l" -> {"C01", "C03"}
            [] f = "u" -> {"C03", "C04"}
            [] f \in {"sx", "sy", "sz", "s2", "sig"} -> {"C05"}
            [] f = "s2tb" -> {"C05", "C04"}
            [] f = "anti" -> {"C04"}
            [] f \in {"mod", "own"} -> {"C11"}
            [] OTHER -> {"C03"})
    [] op = "Anti" -> IF f = "s2tb" THEN {"C04", "C05"} ELSE {"C04"}
    [] op \in {"Change", "SysChange"} ->
         (CASE f = "l" -> {"C01", "C02"} [] f = "anti" -> {"C02", "C04"} [] OTHER -> {"C02"})
    [] op \in {"CopyB", "CopyS"} ->
         (CASE f = "l" -> {"C01", "C07"} [] f = "anti" -> {"C04", "C07"} [] f = "mod" -> {"C07", "C11"} [] OTHER -> {"C07"})
    [] op \in {"Cast", "ModB", "ModS"} -> {"C11"}
    [] op = "NewBasis" -> {"C01"}
    [] op = "SetRepr" -> {"C18"}
    [] op \in {"Energy", "Fock"} -> {"C06"}
    [] op \in {"Ht", "Ut", "SetTeo"} -> {"C08"}
    [] op \in {"Density", "ReadBra"} -> {"C09"}
    [] op \in {"GetT", "XfS"} -> {"C02"}
    [] op \in {"NewSpas", "SetSize"} -> {"C01"}
    [] op = "Set" /\ f \in {"spf", "bra"} -> {"C09", "C24"}
    [] op = "Set" /\ f \in {"enuc", "grid"} \cup SpinF -> {"C24"}
    [] OTHER -> {"C01"}
OpProps(op) ==
  CASE op \in {"Change", "SysChange", "GetT", "XfS"} -> {"C02"}
    [] op = "Double" -> {"C03", "C05"}
    [] op \in {"NewGos", "MkGos"} -> {"C01", "C03", "C07"}
    [] op = "Anti" -> {"C04"}
    [] op \in {"CopyB", "CopyS"} -> {"C07"}
    [] op \in {"Cast", "ModB", "ModS"} -> {"C11"}
    [] op \in {"NewSpas", "NewBasis", "SetSize", "Set"} -> {"C01"}
    [] op = "SetRepr" -> {"C18"}
    [] op \in {"Energy", "Fock"} -> {"C06"}
    [] op \in {"Ht", "Ut", "SetTeo"} -> {"C08"}
    [] op \in {"Density", "ReadBra"} -> {"C09"}
    [] op = "Help" -> {"C27"}
    [] OTHER -> {"C01"}

\* a clause: what disagrees, and the properties violated
Cl(what, props) == {<<what, props>>}
When(c, s) == IF c THEN s ELSE {}

-----------------------------------------------------------------------------
(* Legality of a request in the observed state *)
PairOK(e) == Orthonormal(e.A, e.Bv, e.den)
SetOK(b, e) ==
  LET sh == e.v.sh IN
  CASE e.f \in {"h", "s", "u", "sx", "sy", "sz", "s2", "s2tb"} ->
         /\ (e.f \in SpinF => b.spin)
         /\ \A j \in 1..Len(sh) : sh[j] = b.l
    [] e.f = "dip" -> sh[1] = b.dim /\ \A j \in 2..Len(sh) : sh[j] = b.l
    [] e.f \in {"spf", "bra"} -> sh[1] = b.l /\ Len(sh) = b.dim + 1
    [] e.f \in {"sigma_x", "sigma_y", "sigma_z"} -> b.spin
    [] OTHER -> TRUE
Legal(e) ==
  CASE e.op = "Set" -> SetOK(B[e.b], e)
    [] e.op = "Double" -> B[e.b].spin \/ PairOK(e)
    [] e.op = "Change" -> ChangeOK(B[e.b], e.C, e.Ct)
    [] e.op = "SysChange" -> LET b == B[S[e.s].b] IN ChangeOK(b, e.C, e.Ct) /\ S[e.s].n <= e.C.sh[2]
    [] e.op = "NewSpas" -> SpasOK(B[e.b], e.N)
    [] e.op = "NewGos" -> GosOK(B[e.b], e.n) /\ (B[e.b].spin \/ PairOK(e))
    [] e.op = "MkGos" -> PairOK(e)
    [] e.op = "SetSize" -> e.n <= e.l
    [] e.op = "Bad" -> FALSE
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Expected records.  cx / own / mod: complex typed, arrays of the module,   *)
(* the module in use.                                                       *)
Compact(b) == Len(b.u.sh) = 2
DoubleB(b, e) == IF b.spin THEN b ELSE [BDouble(b, e.A, e.Bv, e.den, e.anti, FALSE) EXCEPT !.cx = TRUE]
GosB(b, e) == LET d == DoubleB(b, e) IN IF e.anti THEN BAnti(d) ELSE d

\* expected new/changed basis records of a legal request, as a function id -> record
ExpB(e) ==
  CASE e.op = "Set" /\ e.f = "spf" -> e.b :> [B[e.b] EXCEPT !.spf = e.v, !.bra = IF H[e.b].drv = "yes" THEN Opt(e.v, TConj) ELSE @]
    [] e.op = "Set" -> e.b :> [B[e.b] EXCEPT ![e.f] = e.v]
    [] e.op = "Double" -> e.b :> DoubleB(B[e.b], e)
    [] e.op = "Anti" -> e.b :> BAnti(B[e.b])
    [] e.op = "Change" -> e.b :> BChange(B[e.b], e.C, e.Ct)
    [] e.op = "SysChange" -> S[e.s].b :> BChange(B[S[e.s].b], e.C, e.Ct)
    [] e.op = "CopyB" -> (Len(B) + 1) :> B[e.b]
    [] e.op = "CopyS" -> (Len(B) + 1) :> B[S[e.s].b]
    [] e.op = "NewGos" -> e.b :> GosB(B[e.b], e)
    [] e.op = "MkGos" -> (Len(B) + 1) :> GosB(B[S[e.s].b], e)
    [] e.op = "Cast" -> e.b :> [B[e.b] EXCEPT !.cx = TRUE]
    [] e.op = "ModB" -> e.b :> [B[e.b] EXCEPT !.mod = e.mod, !.own = TRUE]
    [] e.op = "ModS" -> S[e.s].b :> [B[S[e.s].b] EXCEPT !.mod = e.mod, !.own = TRUE]
    [] OTHER -> <<>>
\* fields that an operation leaves unspecified (dtype and array type after arithmetic; an in-place write)
Free(e) ==
  CASE e.op \in {"Set", "Anti", "Change", "SysChange", "SetRepr"} -> {"cx", "own", "aux"}
    [] e.op \in {"Double", "NewGos", "MkGos", "Cast"} -> {"own", "aux"}
    [] e.op \in {"ModB", "ModS"} -> {"aux"}
    [] OTHER -> {}
\* ids a request may change arbitrarily (an in-place write by the test itself)
Loose(e) == IF e.op \in {"Poke", "NewBasis"} THEN {e.b} ELSE {}

ExpS(e) ==
  CASE e.op = "NewSpas" -> (Len(S) + 1) :> SysRec("spas", e.b, e.N \div 2, B[e.b].l)
    [] e.op = "NewGos" -> (Len(S) + 1) :> SysRec("gos", e.b, e.n, IF B[e.b].spin THEN B[e.b].l ELSE 2 * B[e.b].l)
    [] e.op = "MkGos" -> (Len(S) + 1) :> SysRec("gos", Len(B) + 1, 2 * S[e.s].n, 2 * B[S[e.s].b].l)
    [] e.op = "CopyS" -> (Len(S) + 1) :> SysRec(S[e.s].kind, Len(B) + 1, S[e.s].n, S[e.s].l)
    [] e.op = "SysChange" -> e.s :> SysRec(S[e.s].kind, S[e.s].b, S[e.s].n, e.C.sh[2])
    [] e.op = "SetSize" -> e.s :> SysRec(S[e.s].kind, S[e.s].b, e.n, e.l)
    [] OTHER -> <<>>
ExpT(e) ==
  CASE e.op = "SetTeo" -> [T EXCEPT ![e.s] = e.teo]
    [] e.op \in {"NewSpas", "NewGos"} -> Append(T, NoTeo)
    [] e.op \in {"MkGos", "CopyS"} -> Append(T, T[e.s])
    [] OTHER -> T

-----------------------------------------------------------------------------
(* Comparison *)
SameF(e, f, x, y) ==
  IF f = "u" THEN (Present(x) = Present(y)) /\ (Present(x) => (x.sh = y.sh /\ x = y) \/ (Len(x.sh) # Len(y.sh) /\ U4(x) = U4(y)))
  ELSE x = y
Flags == {"l", "dim", "spin", "anti", "enuc", "cx", "own", "mod", "aux"}
\* compact storage without anti-symmetrisation: spin operators are optional
OptionalSpin(e, f) == /\ e.op \in {"Double", "NewGos", "MkGos"} /\ f \in SpinF /\ ~e.anti
                      /\ LET b == IF e.op = "MkGos" THEN B[S[e.s].b] ELSE B[e.b] IN ~b.spin /\ Compact(b)
\* the history of the functions of basis i: where it came from
Src(e, i) == CASE e.op = "CopyB" /\ i > Len(B) -> e.b
               [] e.op \in {"CopyS", "MkGos"} /\ i > Len(B) -> S[e.s].b
               [] OTHER -> i
\* functions written in place while the bras are implied: the bras may or may not follow
Fuzzy(e, i) == (e.op = "Poke" /\ e.b = i /\ e.f \in {"spf", "bra"}) \/ (LET j == Src(e, i) IN j <= Len(B) /\ H[j].fuz)
\* bras that are the conjugates of the kets because nobody said otherwise
Derived(e, i) == LET j == Src(e, i) IN
  IF e.op = "NewBasis" /\ e.b = i THEN IF Present(e.bra0) THEN "no" ELSE "yes"
  ELSE IF e.out = "ok" /\ e.op = "Set" /\ e.b = i /\ e.f = "bra" THEN "no"
  ELSE IF e.out = "ok" /\ (\/ e.op = "Change" /\ e.b = i
                           \/ e.op = "SysChange" /\ S[e.s].b = i) THEN "any"
  ELSE IF j <= Len(B) THEN H[j].drv ELSE "any"
\* disagreements between the expected record x and the observed one y
DiffB(e, i, x, y, dvr) ==
  UNION {When(f \notin Free(e) /\ ~SameF(e, f, x[f], y[f]) /\ ~(f = "bra" /\ ~y.braobs)
               /\ ~(f = "bra" /\ (Fuzzy(e, i) \/ (e.op = "Set" /\ H[i].drv = "any")) /\ y.bra = Opt(y.spf, TConj))
               /\ ~(OptionalSpin(e, f) /\ ~Present(y[f])),
              Cl("basis " \o ToString(i) \o "." \o f \o " after " \o e.op,
                 FieldProps(e.op, f) \cup (IF dvr THEN {"C18"} ELSE {}))) : f \in TField \cup Flags}
\* a basis the request must leave alone
FrameB(e, i, x, y) ==
  UNION {When(~SameF(e, f, x[f], y[f]) /\ ~(f = "bra" /\ ~y.braobs),
              Cl("basis " \o ToString(i) \o "." \o f \o " changed by " \o e.op,
                 IF e.out = "err" THEN {"C10"}
                 ELSE IF e.op = "Scribble" THEN {"C26"}
                 ELSE IF e.op = "Help" THEN {"C27"}
                 ELSE IF e.op \in {"Energy", "Fock", "Ht", "Ut", "SetTeo", "Density", "ReadBra", "GetT", "XfS"} THEN OpProps(e.op) \cup {"C07"}
                 ELSE {"C07"})) : f \in TField \cup Flags}
SFields == {"kind", "b", "n", "l", "m", "o", "v"}
DiffS(e, s, x, y) ==
  UNION {When(x[f] # y[f], Cl("system " \o ToString(s) \o "." \o f \o " after " \o e.op,
              {"C01"} \cup (IF e.op \in {"CopyS", "MkGos"} THEN {"C07"} ELSE {}) \cup (IF e.op = "SysChange" THEN {"C02"} ELSE {}))) : f \in SFields}
FrameS(e, s, x, y) ==
  UNION {When(x[f] # y[f], Cl("system " \o ToString(s) \o "." \o f \o " changed by " \o e.op,
              IF e.out = "err" THEN {"C10"} ELSE {"C07", "C01"})) : f \in SFields}

\* the public helper functions, as functions of their arguments e.x
DimHerm(D) == MapComp(D, LAMBDA X : TAdd(X, Adj(X)))
HelpRes(e) ==
  LET x == e.x  fn == e.fn  U == IF Len(x) > 0 /\ Len(x[1].sh) = 2 /\ fn \in {"two", "x2", "x2t", "x2a", "x2at"} THEN U4(x[1]) ELSE IF Len(x) > 0 THEN x[1] ELSE NoT IN
  CASE fn \in {"spf", "bra"} -> <<DblF(x[1])>>
    [] fn = "none" -> <<>>
    [] fn = "one" -> <<Dbl1(x[1])>>
    [] fn = "two" -> <<Dbl2(U)>>
    [] fn = "anti" -> <<AntiSym(x[1])>>
    [] fn = "pauli" -> <<Pauli(e.A, e.Bv, SigX), Pauli(e.A, e.Bv, SigY), Pauli(e.A, e.Bv, SigZ)>>
    [] fn = "s2" -> LET q(X) == MatMul(X, MatMul(e.inv, X)) IN <<TAdd(TAdd(q(x[1]), q(x[2])), q(x[3])), S2TB(x[1], x[2], x[3])>>
    [] fn = "xspf" -> <<LMul(Tr(x[2]), x[1])>>
    [] fn = "xbra" -> <<LMul(x[2], x[1])>>
    [] fn = "x1" -> <<Xf1(x[1], x[2], Adj(x[2]))>>
    [] fn = "x1t" -> <<Xf1(x[1], x[2], x[3])>>
    [] fn = "x2" -> <<Xf2(U, x[2], Adj(x[2]))>>
    [] fn = "x2t" -> <<Xf2(U, x[2], x[3])>>
    [] fn = "x2a" -> <<AntiSym(Xf2(U, x[2], Adj(x[2])))>>
    [] fn = "x2at" -> <<AntiSym(Xf2(U, x[2], x[3]))>>
    [] fn = "dens" -> <<Density(x[1], x[2], x[3])>>
    [] fn = "axes" -> <<Build(<<Len(e.sh)>>, LAMBDA j : <<IF e.sh[j] = e.len THEN 1 ELSE 0, 0>>)>>
    [] fn = "herm" -> <<TAdd(x[1], Adj(x[1]))>>
    [] fn = "dipherm" -> <<DimHerm(x[1])>>
    [] fn = "exch" -> <<TAdd(x[1], SwapBoth(x[1]))>>
    [] fn = "arr" -> <<x[1]>>
    [] fn = "delta" -> <<Build(<<2>>, LAMBDA j : <<IF j = 1 THEN IF e.p = e.q THEN 1 ELSE 0 ELSE IF e.p % 2 = e.q % 2 THEN 1 ELSE 0, 0>>)>>
\* a compactly stored interaction may come back in either storage
HelpOK(e) ==
  /\ e.fn = "s2" => MatMul(e.inv, e.x[4]) = Id(e.inv.sh[1])
  /\ LET r == HelpRes(e) IN
     /\ Len(e.ret) = Len(r)
     /\ \A j \in 1..Len(r) : e.ret[j] = r[j] \/ (e.fn = "two" /\ Len(e.ret[j].sh) = 2 /\ U4(e.ret[j]) = r[j])
HelpProps(e) == CASE e.dvr /\ e.fn \in {"two", "x2", "x2t", "x2a", "x2at"} -> {"C18"}
                  [] e.fn \in {"xspf", "xbra", "x1", "x1t", "x2", "x2t"} -> {"C02"}
                  [] e.fn \in {"spf", "bra", "one", "two"} -> {"C03"}
                  [] e.fn = "anti" -> {"C04"}
                  [] e.fn \in {"pauli", "s2"} -> {"C05"}
                  [] e.fn = "dens" -> {"C09"}
                  [] OTHER -> {}

\* returned values
C2(x) == <<x[1], x[2]>>
Ret(e) ==
  CASE e.op = "Energy" -> When(C2(e.ret) # Energy2(S[e.s], [B[S[e.s].b] EXCEPT !.u = U4(@)]), Cl("energy", {"C06"}))
    [] e.op = "Fock" -> LET b == B[S[e.s].b] IN
         When(e.ret # Fock(S[e.s].kind, S[e.s].n, IF e.own THEN b.h ELSE e.h, U4(IF e.own THEN b.u ELSE e.u)), Cl("Fock matrix", {"C06"}))
         \cup When(e.argmod, Cl("arguments of construct_fock_matrix modified", {"C06"}))
    [] e.op = "Ht" -> When(e.ret # Ht(T[e.s], e.t, B[S[e.s].b]), Cl("h(t) with " \o T[e.s].ty, {"C08"} \cup When(Org[e.s], {"C07"})))
    [] e.op = "Ut" -> When(U4(e.ret) # Ut(T[e.s], e.t, [B[S[e.s].b] EXCEPT !.u = U4(@)]), Cl("u(t) with " \o T[e.s].ty, {"C08"} \cup When(Org[e.s], {"C07"})))
    [] e.op = "Density" ->
         LET b == B[e.b]
             ket == IF Present(e.C) THEN LMul(Tr(e.C), b.spf) ELSE b.spf
             bra == IF Present(e.C) THEN LMul(e.Ct, b.bra) ELSE b.bra
         IN When(e.ret # Density(e.rho, ket, bra), Cl("particle density", {"C09"}))
    [] e.op = "ReadBra" -> When(e.ret # B[e.b].bra /\ ~(H[e.b].fuz /\ e.ret = Opt(B[e.b].spf, TConj)), Cl("bra functions", {"C09", "C02"}
           \* somebody reused arrays that had been lent to a request before
           \cup When(\E j \in 1..k : Traces[t].ev[j].op = "Scribble", {"C26"})))
    [] e.op = "GetT" -> LET b == B[e.b] IN
         When(e.rh # Xf1(b.h, e.C, Adj(e.C)), Cl("transformed h", {"C02"}))
         \cup When(e.ru # Xf2(U4(b.u), e.C, Adj(e.C)), Cl("transformed u", {"C02"}))
    [] e.op = "XfS" ->
         When(e.rh # Xf1(e.X, e.C, e.Ct), Cl("transform_one_body_elements", {"C02"}))
         \cup When(e.ru # Xf2(U4(e.U), e.C, e.Ct), Cl("transform_two_body_elements", {"C02"}))
         \cup When(e.argmod, Cl("arguments of the transformation modified", {"C02"}))
    [] e.op = "Help" -> When(~HelpOK(e), Cl("result of the helper " \o e.fn, {"C27"} \cup HelpProps(e)))
         \cup When(e.argmod, Cl("argument of the helper " \o e.fn \o " modified", {"C27"}))
    [] e.op \in {"Double", "NewGos", "MkGos"} /\ Has(e, "sig") /\ e.sig # <<>> ->
         \* the Pauli matrices handed out, in units 1/den^2
         LET nb == IF e.op = "MkGos" THEN S[e.s].b ELSE e.b IN
         When(~B[nb].spin /\ e.sig # <<Pauli(e.A, e.Bv, SigX), Pauli(e.A, e.Bv, SigY), Pauli(e.A, e.Bv, SigZ)>>,
              Cl("Pauli matrices", {"C05"}))
    [] OTHER -> {}

\* indicators reported by each system
FlagErr(e, s, o, TT) ==
  When(o.has1 # Has1(TT[s]) \/ o.has2 # Has2(TT[s]),
       Cl("has-time-operator indicators of system " \o ToString(s) \o " after " \o e.op, {"C08"} \cup When(e.op \in {"CopyS", "MkGos"}, {"C07"})))
ModErr(e, s, o, b) == When(o.mod # b.mod, Cl("module of system " \o ToString(s) \o " differs from its basis after " \o e.op,
       {"C11"} \cup When(e.op \in {"CopyS", "MkGos"}, {"C07"})))

\* what a system hands out is what its basis set holds (numbers stand for contents)
ViewErr(e, s, o) == UNION {When(o.vw[j] # o.vb[j], Cl("system " \o ToString(s) \o " hands out another " \o o.vn[j] \o " than its basis set, after " \o e.op,
       {"C24"} \cup When(o.vn[j] \in {"sx", "sy", "sz", "s2", "s2tb"}, {"C05"}) \cup When(o.vn[j] \in {"spf", "bra"}, {"C09"}))) : j \in 1..Len(o.vn)}

\* state invariants on what is observed
StateErr(e, i, b, ta) ==
  When(~WellShaped(b), Cl("basis " \o ToString(i) \o ": an axis disagrees with the size after " \o e.op, {"C01"}))
  \cup When(WellShaped(b) /\ ta /\ b.anti /\ Present(b.u) /\ IsExch(U4(b.u)) /\ ~IsAnti(U4(b.u)),
            Cl("basis " \o ToString(i) \o ": reported anti-symmetrised but is not, after " \o e.op, {"C04"}))
SysErr(e, s, x, b) == When(~PartitionOK(x, b), Cl("system " \o ToString(s) \o ": partition after " \o e.op, {"C01"}))

-----------------------------------------------------------------------------
Upd(seq, lst) == \* observed records replace / extend
  LET n == IF lst = <<>> THEN Len(seq)
           ELSE LET mx == CHOOSE m \in {lst[j].i : j \in 1..Len(lst)} : \A j \in 1..Len(lst) : lst[j].i <= m
                IN IF mx > Len(seq) THEN mx ELSE Len(seq)
  IN [i \in 1..n |-> IF \E j \in 1..Len(lst) : lst[j].i = i
                     THEN lst[CHOOSE j \in 1..Len(lst) : lst[j].i = i].r ELSE seq[i]]
In(i, f) == i \in DOMAIN f

\* The request to be judged in this state, and what was observed after it.
\* (All of this is evaluated as a state predicate: TLC then computes every LET value once.)
Pending == ~stop /\ k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]
ObsB == Upd(B, Ev.cb)
ObsS == Upd(S, Ev.cs)
Opaque == Traces[t].opaque

\* bra functions that were not looked at: their expected value
ExpBra(e) ==
  CASE e.op = "Change" -> e.b :> Opt(B[e.b].bra, LAMBDA X : LMul(e.Ct, X))
    [] e.op = "SysChange" -> S[e.s].b :> Opt(B[S[e.s].b].bra, LAMBDA X : LMul(e.Ct, X))
    [] e.op \in {"Double", "NewGos"} -> e.b :> IF B[e.b].spin THEN B[e.b].bra ELSE Opt(B[e.b].bra, DblF)
    [] e.op = "MkGos" -> (Len(B) + 1) :> Opt(B[S[e.s].b].bra, DblF)
    [] e.op = "CopyB" -> (Len(B) + 1) :> B[e.b].bra
    [] e.op = "CopyS" -> (Len(B) + 1) :> B[S[e.s].b].bra
    [] e.op = "Set" /\ e.f = "spf" /\ H[e.b].drv = "yes" -> e.b :> Opt(e.v, TConj)
    [] e.op = "Set" /\ e.f = "bra" -> e.b :> e.v
    [] OTHER -> <<>>

TrueAnti(e, ok, i) ==
  CASE e.op = "CopyB" /\ i > Len(B) -> H[e.b].trueanti
    [] e.op = "CopyS" /\ i > Len(B) -> H[S[e.s].b].trueanti
    [] e.op = "MkGos" /\ i > Len(B) -> ~B[S[e.s].b].anti
    [] i > Len(B) -> FALSE
    [] ~ok -> H[i].trueanti
    \* conversion of a spatial basis whose flag was up already: the doubled elements are not anti-symmetric
    [] e.op \in {"Double", "NewGos"} /\ i <= Len(B) /\ e.b = i /\ ~B[i].spin -> ~B[i].anti
    [] e.op \in {"Double", "NewGos", "Anti"} /\ i <= Len(B) /\ e.b = i /\ (e.op = "Anti" \/ B[i].spin) -> H[i].trueanti \/ ~B[i].anti
    [] e.op \in {"Set", "Poke"} /\ i <= Len(B) /\ e.b = i -> FALSE
    [] OTHER -> H[i].trueanti

Errs ==
  LET e == Ev
      op == e.op
      opq == Opaque
      legal == opq \/ Legal(e)
      ok == e.out = "ok"
      dvr == Has(e, "dvr") /\ e.dvr
      xb == IF ok /\ legal /\ (~opq \/ op \in {"CopyB", "CopyS", "Cast", "ModB", "ModS"}) THEN ExpB(e) ELSE <<>>
      xs == IF ok /\ legal THEN ExpS(e) ELSE <<>>
      \* ids a legal request targets (exempt from the frame), also when values are opaque
      tb == IF ~ok THEN {} ELSE Loose(e) \cup DOMAIN xb
            \cup (IF opq /\ Has(e, "tb") THEN {e.tb[j] : j \in 1..Len(e.tb)} ELSE {})
            \cup (IF op = "SetRepr" THEN {e.b} ELSE {})
      ts == IF ~ok THEN {} ELSE DOMAIN xs
      chB == {e.cb[j].i : j \in 1..Len(e.cb)}
      chS == {e.cs[j].i : j \in 1..Len(e.cs)}
      oB == ObsB
      oS == ObsS
      TT == IF ok /\ legal THEN ExpT(e) ELSE T
  IN
     When(Has(e, "held") /\ e.held # <<>>, UNION {Cl(e.held[j] \o " was written to by " \o op, {"C26"}) : j \in 1..Len(e.held)}) \cup
     (IF legal /\ ~ok THEN Cl("valid request " \o op \o " raised " \o e.exc, OpProps(op) \cup When(dvr, {"C18"}))
      ELSE IF ~legal /\ ok THEN Cl("invalid request " \o op \o " was accepted", {"C10"})
      ELSE {})
     \cup UNION {IF i > Len(oB) THEN Cl("no new basis after " \o op, OpProps(op))
                 ELSE DiffB(e, i, xb[i], oB[i], dvr) : i \in DOMAIN xb}
     \cup UNION {IF i > Len(oS) THEN Cl("no new system after " \o op, OpProps(op))
                 ELSE DiffS(e, i, xs[i], oS[i]) : i \in DOMAIN xs}
     \cup (IF legal \/ ~ok THEN
             UNION {FrameB(e, i, B[i], oB[i]) : i \in {j \in 1..Len(B) : j \notin tb /\ j \in chB}}
             \cup UNION {FrameS(e, i, S[i], oS[i]) : i \in {j \in 1..Len(S) : j \notin ts /\ j \in chS}} ELSE {})
     \cup (IF op = "SetRepr" /\ ok THEN DiffB(e, e.b, B[e.b], oB[e.b], TRUE)
                \cup When(e.repr # (IF Compact(oB[e.b]) THEN "2d" ELSE "4d"), Cl("representation after set_u_repr", {"C18"})) ELSE {})
     \cup (IF op = "NewBasis" /\ ok THEN When(oB[e.b].l # e.l \/ oB[e.b].dim # e.dim, Cl("size after construction", {"C01"}))
                \cup When(oB[e.b].spin # e.spin, Cl("spin status after construction", {"C03"}))
                \cup When(oB[e.b].anti # e.anti, Cl("anti-symmetry status after construction", {"C04"})) ELSE {})
     \cup (IF legal /\ ok /\ ~opq THEN Ret(e) ELSE {})
     \cup (IF legal \/ ~ok THEN UNION {FlagErr(e, s, oS[s], TT) : s \in 1..Len(oS)} ELSE {})
     \cup UNION {ViewErr(e, s, oS[s]) : s \in chS}
     \cup UNION {ModErr(e, s, oS[s], oB[oS[s].b]) : s \in {j \in 1..Len(oS) : oS[j].b > 0}}
     \cup (IF legal \/ ~ok THEN
             UNION {When(~opq, StateErr(e, i, oB[i], TrueAnti(e, ok, i))) : i \in chB}
             \cup UNION {SysErr(e, s, oS[s], oB[oS[s].b]) : s \in {j \in 1..Len(oS) : oS[j].b > 0}} ELSE {})

\* always true; reports every clause in which this step of the trace disagrees
Conform == Pending => \A c \in Errs :
   PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c[1], props |-> c[2]]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))

Step ==
  /\ Pending
  \* (binding through singletons makes TLC evaluate each value once also inside an action)
  /\ \E e \in {Ev} : \E oB \in {ObsB} : \E ok \in {e.out = "ok"} : \E legal \in {Opaque \/ Legal(e)} :
     \E xbra \in {IF ok /\ legal /\ ~Opaque THEN ExpBra(e) ELSE <<>>} :
        /\ B' = [i \in 1..Len(oB) |->
                  IF oB[i].braobs \/ Opaque THEN oB[i]
                  ELSE [oB[i] EXCEPT !.bra = IF In(i, xbra) THEN xbra[i]
                                             ELSE IF i <= Len(B) THEN B[i].bra
                                             ELSE IF e.op = "NewBasis" /\ Present(e.bra0) THEN e.bra0
                                             ELSE Opt(oB[i].spf, TConj)]]
        /\ S' = ObsS
        /\ T' = IF ok /\ legal THEN ExpT(e) ELSE T
        /\ H' = [i \in 1..Len(oB) |-> [trueanti |-> TrueAnti(e, ok, i), fuz |-> Fuzzy(e, i), drv |-> Derived(e, i)]]
        /\ Org' = [s \in 1..Len(ObsS) |-> IF s <= Len(Org) THEN Org[s] ELSE e.op \in {"CopyS", "MkGos"}]
        /\ stop' = \/ ~legal /\ ok
                   \/ legal /\ ~ok
                   \/ ~Opaque /\ \E j \in 1..Len(e.cb) : ~e.cb[j].r.clean \/ ~WellShaped(e.cb[j].r)
        /\ k' = k + 1 /\ t' = t

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
