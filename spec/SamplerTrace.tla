---------------------------- MODULE SamplerTrace ----------------------------
(* Conformance of recorded histories of a sample collector with Sampler.     *)
EXTENDS Sampler, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == Data.traces
VARIABLES t, k, C, Sm, fs
vars == <<t, k, C, Sm, fs>>
View == <<t, k>>

\* encoded dictionaries and file systems
Dict(d) == LET ks == {d[j][1] : j \in 1..Len(d)} IN [x \in ks |-> (CHOOSE j \in 1..Len(d) : d[j][1] = x) ]
DictV(d) == LET ix == Dict(d) IN [x \in DOMAIN ix |-> d[ix[x]][2]]
Files(f) == [x \in {<<f[j][1], f[j][2]>> : j \in 1..Len(f)} |-> DictV((CHOOSE y \in {f[j] : j \in 1..Len(f)} : <<y[1], y[2]>> = x)[3])]
SeqSet(s) == {s[j] : j \in 1..Len(s)}
ObsFs(e) == [dirs |-> SeqSet(e.dirs), obst |-> SeqSet(e.obst), files |-> Files(e.files)]
Log(e) == [j \in 1..Len(e.log) |-> [op |-> e.log[j].op, i |-> e.log[j].i, step |-> e.log[j].step, keys |-> SeqSet(e.log[j].keys)]]

Init == /\ t \in 1..Len(Traces) /\ k = 0
        /\ C = [ord |-> Traces[t].ord, any |-> Traces[t].any, cls |-> Traces[t].cls, ex |-> EmptyF]
        /\ Sm = [i \in 1..Len(Traces[t].key) |-> [key |-> Traces[t].key[i], got |-> <<>>]]
        /\ fs = ObsFs(Traces[t].start)
Pending == k < Len(Traces[t].ev)
Ev == Traces[t].ev[k + 1]

Cl(what) == {what}
When(c, s) == IF c THEN s ELSE {}
\* the order actually used must be a permutation when the container has none
Order(e) == IF ~C.any THEN C.ord ELSE [j \in 1..Len(e.log) |-> e.log[j].i]
OrderOK(o) == Len(o) = Len(C.ord) /\ SeqSet(o) = SeqSet(C.ord)

ExpEx(e) == CASE e.op = "Add" -> Put(C.ex, e.key, e.val)
              [] e.op = "Dump" -> IF OrderOK(Order(e)) THEN Merge(C.ex, Order(e), Sm) ELSE Merge(C.ex, C.ord, Sm)
              [] OTHER -> C.ex
Refuse(e) == e.op = "Dump" /\ e.save /\ Refused(fs, e.path, e.existok)
Errs(e) ==
  LET o == Order(e)  L == Log(e)  ex == ExpEx(e)  obs == DictV(e.ex)  ret == DictV(e.ret)  ofs == ObsFs(e) IN
  CASE e.op = "Sample" -> When(e.out # "ok", Cl("sampling failed"))
        \cup When(~OrderOK(o) \/ L # [j \in 1..Len(o) |-> [op |-> "sample", i |-> o[j], step |-> e.step, keys |-> {}]], Cl("calls made by a sampling request"))
        \cup When(obs # C.ex, Cl("sampling changed the dictionary")) \cup When(ofs # fs, Cl("sampling changed files"))
    [] e.op = "Add" -> When(e.out # "ok", Cl("adding a sample failed")) \cup When(obs # ex, Cl("dictionary after adding a sample"))
        \cup When(L # <<>>, Cl("adding a sample called samplers")) \cup When(ofs # fs, Cl("adding a sample changed files"))
    [] e.op = "Get" -> When(e.out # "ok" \/ ret # C.ex, Cl("samples returned")) \cup When(L # <<>>, Cl("reading samples called samplers"))
        \cup When(ofs # fs, Cl("reading samples changed files")) \cup When(obs # C.ex, Cl("reading changed the dictionary"))
    [] Refuse(e) -> When(e.out # "err", Cl("a dump into an unusable or existing directory was accepted"))
        \cup When(ofs # fs, Cl("a refused dump changed files"))
        \cup When(~(obs \in {C.ex, ex}), Cl("dictionary after a refused dump"))
    [] e.op = "Dump" ->
        When(e.out # "ok", Cl("dump failed"))
        \cup (IF e.out # "ok" THEN {} ELSE
              When(~OrderOK(o) \/ L # DumpLog(C.ex, o, Sm), Cl("calls made by a dump"))
              \cup When(ret # ex, Cl("dictionary returned by a dump"))
              \cup When(obs # ex, Cl("dictionary after a dump"))
              \cup (IF ~e.save THEN When(ofs # fs, Cl("a dump without saving changed files"))
                    ELSE LET x == Store(fs, C, e.path, e.file, ex) IN
                         When(ofs.dirs # x.dirs \/ DOMAIN ofs.files # DOMAIN x.files \/ ofs.obst # x.obst, Cl("files present after a saving dump"))
                         \cup When(DOMAIN ofs.files = DOMAIN x.files /\ ofs.files # x.files, Cl("content of files after a saving dump"))))
    [] OTHER -> {}

Conform == Pending => \A c \in Errs(Ev) :
   PrintT("MISMATCH " \o ToJson([trace |-> Traces[t].id, event |-> k + 1, what |-> c, props |-> {"C20"}]))
Finished == (~Pending) => PrintT("DONE " \o ToJson([trace |-> Traces[t].id, events |-> k]))
Next == /\ Pending /\ k' = k + 1 /\ t' = t
        /\ C' = [C EXCEPT !.ex = DictV(Ev.ex)]
        /\ Sm' = IF Ev.op = "Sample" THEN SampleS(C, Sm, Ev.step) ELSE Sm
        /\ fs' = ObsFs(Ev)
Spec == Init /\ [][Next]_vars
=============================================================================
