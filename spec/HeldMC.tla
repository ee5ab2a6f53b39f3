------------------------------- MODULE HeldMC -------------------------------
(* Arrays handed out and lent: design model of C26.                         *)
(*                                                                          *)
(* Arrays are cells of a heap; objects hold cells; the user keeps every     *)
(* cell it ever saw (handed out or lent to a request) and writes to any of  *)
(* them at any time.  A request allocates cells and never writes to an      *)
(* existing one, and what an object holds depends on nothing but its own    *)
(* cells.  Mode "fresh" is the library's design; the other modes are        *)
(* designs that TLC must reject:                                            *)
(*   inplace  a transformation writes its result over the old quantity      *)
(*   buffer   an evaluation hands out the same cell every time              *)
(*   lazy     a transformation keeps the coefficients and applies them when *)
(*            the quantity is read                                          *)
EXTENDS Naturals, Sequences
CONSTANTS Mode, MaxOps, MaxObjs
VARIABLES heap,  \* contents of the cells
          own,   \* per object: its cell
          pend,  \* per object: cells still to be applied (mode lazy)
          buf,   \* the cell evaluations return (mode buffer), 0: none yet
          n, last
vars == <<heap, own, pend, buf, n, last>>
View == <<heap, own, pend, buf, n, last>>

Init == heap = <<<<"a">>, <<"c">>>> /\ own = <<1>> /\ pend = <<<<>>>> /\ buf = 0 /\ n = 0 /\ last = [op |-> "init", c |-> 0]
Cells == 1..Len(heap)
RECURSIVE Apply(_, _)
Apply(x, cs) == IF cs = <<>> THEN x ELSE Apply(x \o heap[Head(cs)], Tail(cs))
Value(i) == Apply(heap[own[i]], pend[i])

\* change of basis of object i with the coefficients in cell c
Change(i, c) ==
  /\ c # own[i]
  /\ CASE Mode = "inplace" -> heap' = [heap EXCEPT ![own[i]] = @ \o heap[c]] /\ UNCHANGED <<own, pend>>
       [] Mode = "lazy" -> pend' = [pend EXCEPT ![i] = Append(@, c)] /\ UNCHANGED <<heap, own>>
       [] OTHER -> heap' = Append(heap, Value(i) \o heap[c]) /\ own' = [own EXCEPT ![i] = Len(heap) + 1] /\ UNCHANGED pend
  /\ last' = [op |-> "Change", c |-> 0] /\ UNCHANGED buf
Eval(i) ==
  /\ IF Mode = "buffer" /\ buf > 0 THEN heap' = [heap EXCEPT ![buf] = Value(i) \o <<"t">>] /\ buf' = buf
     ELSE heap' = Append(heap, Value(i) \o <<"t">>) /\ buf' = IF Mode = "buffer" THEN Len(heap) + 1 ELSE 0
  /\ last' = [op |-> "Eval", c |-> 0] /\ UNCHANGED <<own, pend>>
Copy(i) ==
  /\ Len(own) < MaxObjs
  /\ heap' = Append(heap, heap[own[i]]) /\ own' = Append(own, Len(heap) + 1) /\ pend' = Append(pend, pend[i])
  /\ last' = [op |-> "Copy", c |-> 0] /\ UNCHANGED buf
Write(c) ==
  /\ heap' = [heap EXCEPT ![c] = <<"w">>] /\ last' = [op |-> "Write", c |-> c] /\ UNCHANGED <<own, pend, buf>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E i \in 1..Len(own) : (\E c \in Cells : Change(i, c)) \/ Eval(i) \/ Copy(i)
           \/ \E c \in Cells : Write(c)
Spec == Init /\ [][Next]_vars

\* requests leave the contents of all existing cells alone
Untouched == [][last'.op # "Write" => \A c \in Cells : heap'[c] = heap[c]]_vars
\* writing to a cell concerns nobody but the objects that hold it
NotKept == [][last'.op = "Write" => \A i \in 1..Len(own) : own[i] # last'.c => Value(i)' = Value(i)]_vars
=============================================================================
