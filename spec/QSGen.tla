------------------------------- MODULE QSGen -------------------------------
(* Generation of operation histories from the lifecycle QSLife (simulation). *)
(* Sizes and numbers are chosen by the replayer; histories fix what is       *)
(* requested, in which order and on which object.  Parameters are drawn with *)
(* RandomElement so that every kind of request is equally likely.            *)
EXTENDS QSLife, TLC, Json
CONSTANTS Ops,     \* enabled requests
          Prefix,  \* sequence of sets of requests: how a history begins
          EmitAt   \* length of a history
VARIABLE hist, done
vars == <<bs, ss, hist, done>>

On(op) == op \in (IF Len(hist) < Len(Prefix) THEN Prefix[Len(hist) + 1] ELSE Ops)
Rec(r) == hist' = Append(hist, r)
R(X) == {RandomElement(X)}

Init == LInit /\ hist = <<>> /\ done = FALSE

BQ == {"DensityB", "GetT", "ReadBra", "Cast", "ModB", "Poke", "Set", "SetRepr", "Help", "BadRepr",
       "BadSet", "BadSpinSet", "BadSpas", "BadGos", "BadPair", "BadChange"}
SQ == {"Energy", "Fock", "Density", "Ht", "Ut", "XfS", "ModS", "SetSize",
       "BadSysChange", "BadSize", "BadMkGos"}
Spas == {s \in Ids(ss) : ss[s].kind = "spas"}
Free == {i \in Ids(bs) : UsedBy(i) = {}}

Act ==
  /\ Len(hist) < EmitAt /\ UNCHANGED done
  /\ \/ On("New") /\ \E sp \in R(BOOLEAN), an \in R(BOOLEAN) : LNew(sp, an) /\ Rec([op |-> "New", spin |-> sp, anti |-> an])
     \/ On("Double") /\ Free # {} /\ \E i \in R(Free), an \in R(BOOLEAN), ti \in R(BOOLEAN) :
           LDouble(i, an) /\ Rec([op |-> "Double", b |-> i, anti |-> an, tilt |-> ti])
     \/ On("Anti") /\ \E i \in R(Ids(bs)) : LAnti(i) /\ Rec([op |-> "Anti", b |-> i])
     \/ On("Change") /\ Free # {} /\ \E i \in R(Free), bi \in R(BOOLEAN), dl \in R({-1, 0, 1}) :
           LChange(i) /\ Rec([op |-> "Change", b |-> i, bi |-> bi, dl |-> dl])
     \/ On("CopyB") /\ \E i \in R(Ids(bs)) : LCopyB(i) /\ Rec([op |-> "CopyB", b |-> i])
     \/ On("NewSpas") /\ \E i \in {j \in Free : ~bs[j].spin} : LNewSpas(i) /\ Rec([op |-> "NewSpas", b |-> i])
     \/ On("NewGos") /\ Free # {} /\ \E i \in R(Free), an \in R(BOOLEAN), ti \in R(BOOLEAN) :
           LNewGos(i, an) /\ Rec([op |-> "NewGos", b |-> i, anti |-> an, tilt |-> ti])
     \/ \E q \in BQ : On(q) /\ \E i \in R(Ids(bs)) : LQuery /\ Rec([op |-> q, b |-> i])
     \/ ss # <<>> /\
         \/ On("SysChange") /\ \E s \in R(Ids(ss)), bi \in R(BOOLEAN), dl \in R({-1, 0, 1}) :
              LSysChange(s) /\ Rec([op |-> "SysChange", s |-> s, bi |-> bi, dl |-> dl])
         \/ On("MkGos") /\ Spas # {} /\ \E s \in R(Spas), an \in R(BOOLEAN), ti \in R(BOOLEAN) :
              LMkGos(s, an) /\ Rec([op |-> "MkGos", s |-> s, anti |-> an, tilt |-> ti])
         \/ On("CopyS") /\ \E s \in R(Ids(ss)) : LCopyS(s) /\ Rec([op |-> "CopyS", s |-> s])
         \/ On("SetTeo") /\ \E s \in R(Ids(ss)), ty \in R(Teos) : LSetTeo(s, ty) /\ Rec([op |-> "SetTeo", s |-> s, ty |-> ty])
         \/ \E q \in SQ : On(q) /\ \E s \in R(Ids(ss)) : LQuery /\ Rec([op |-> q, s |-> s])
\* a finished behaviour (or one in which nothing enabled is left) prints its history
Finish == /\ ~done /\ (Len(hist) = EmitAt \/ ~ENABLED Act) /\ done' = TRUE /\ UNCHANGED <<bs, ss, hist>>
          /\ PrintT("HIST " \o ToJson(hist))
Next == Act \/ Finish
Spec == Init /\ [][Next]_vars
Inv == LInv
=============================================================================
