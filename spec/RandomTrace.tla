----------------------------- MODULE RandomTrace ----------------------------
(* Conformance of random basis sets: each event is a group of basis sets of  *)
(* the same size made one after the other (values times 10^8).               *)
EXTENDS RandomBasis, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
VARIABLES t, k
vars == <<t, k>>
Init == t \in 1..Len(Traces) /\ k = 0
Pending == k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]
When(c, s) == IF c THEN {s} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a - b) <= 2
HermOK(m, l) == \A x \in 1..(l * l) : Close(m.re[x], m.re[Tr(x, l)]) /\ Close(m.im[x], -m.im[Tr(x, l)])
SymOK(m, l) == \A x \in 1..(l * l * l * l) : Close(m.re[x], m.re[Swap(x, l)]) /\ Close(m.im[x], m.im[Swap(x, l)])
Slice(m, l, c) == [re |-> SubSeq(m.re, (c - 1) * l * l + 1, c * l * l), im |-> SubSeq(m.im, (c - 1) * l * l + 1, c * l * l)]

Errs(e) ==
  IF e.err # "" THEN {e.err} ELSE
  LET l == e.l  B == e.sets  N == 1..Len(B)
      One(b) == When(b.h.sh # <<l, l>> \/ b.s.sh # <<l, l>> \/ b.u.sh # <<l, l, l, l>> \/ b.d.sh # <<e.dim, l, l>> \/ b.l # l \/ b.dim # e.dim, "shapes")
         \cup When(~b.cx, "elements are not complex") \cup When(b.spin \/ b.anti, "flags")
      Good == \A j \in N : One(B[j]) = {}
      Sym(b) == When(~HermOK(b.h, l), "one-body Hamiltonian not Hermitian") \cup When(~HermOK(b.s, l), "overlap not Hermitian")
         \cup When(\E c \in 1..e.dim : ~HermOK(Slice(b.d, l, c), l), "dipole elements not Hermitian")
         \cup When(~SymOK(b.u, l), "two-body elements not symmetric under particle exchange")
      \* zero, or equal to an unrelated element, in every basis set
      Zero(F(_)) == \E x \in 1..Len(F(1).re) : \A j \in N : F(j).re[x] = 0
      ZeroI(F(_), rel(_)) == \E x \in 1..Len(F(1).im) : rel(x) # x /\ \A j \in N : F(j).im[x] = 0
      TrC(x) == LET y == ((x - 1) % (l * l)) + 1 IN x - y + Tr(y, l)
      Same(F(_), rel(_)) == \E x \in 1..Len(F(1).re) : \E y \in 1..(x - 1) : y # rel(x) /\ \A j \in N : F(j).re[x] = F(j).re[y]
      SameI(F(_), rel(_)) == \E x \in 1..Len(F(1).re) : \E y \in 1..(x - 1) : y # rel(x) /\ rel(x) # x /\ rel(y) # y /\ \A j \in N : Abs(F(j).im[x]) = Abs(F(j).im[y])
      Mix(F(_), rel(_)) == \E x \in 1..Len(F(1).re) : rel(x) # x /\ \A j \in N : Abs(F(j).re[x]) = Abs(F(j).im[x])
      Hf(j) == B[j].h   Sf(j) == B[j].s   Df(j) == B[j].d   Uf(j) == B[j].u
      Sw(x) == Swap(x, l)
      SwN(x) == IF Swap(x, l) = x THEN 0 ELSE Swap(x, l)      \* for u every imaginary part is free
      Deg(F(_), name, rel(_)) == When(Zero(F) \/ ZeroI(F, rel), "an element of " \o name \o " is always zero")
           \cup When(Same(F, rel) \/ SameI(F, rel) \/ Mix(F, rel), "unrelated elements of " \o name \o " are always equal")
      Twin(F(_), name) == When(\E i \in N : \E j \in 1..(i - 1) : F(i) = F(j), "two basis sets have the same " \o name)
  IN UNION {One(B[j]) : j \in N} \cup
     (IF ~Good THEN {} ELSE UNION {Sym(B[j]) : j \in N}
        \cup (IF e.deg THEN Deg(Hf, "h", TrC) \cup Deg(Sf, "s", TrC) \cup Deg(Df, "the dipole", TrC) \cup Deg(Uf, "u", SwN) ELSE {})
        \cup Twin(Hf, "h") \cup Twin(Sf, "s") \cup Twin(Df, "dipole") \cup Twin(Uf, "u")
        \cup When(\E j \in N : B[j].h.re = B[j].s.re, "h and s are alike"))
Conform == Pending => \A c \in Errs(Ev) :
   PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c, props |-> {"C21"}]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))
Next == Pending /\ k' = k + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
