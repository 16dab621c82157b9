-------------------------------- MODULE Saved --------------------------------
(***************************************************************************)
(* Saving results of calculations to folders and loading them (C21).        *)
(*                                                                          *)
(* Calculations of several kinds, of versions of one system, with names     *)
(* which may be the same, are solved and saved to folders; later ones of    *)
(* the same name replace the files of earlier ones.  What is loaded are the *)
(* results of the latest successful save of that name to that folder; a     *)
(* failed calculation leaves the files as they were; what was loaded before *)
(* stays what it is.                                                        *)
(* A case: kinds [k: "full" (modelled before) or "seg", ok: seq over        *)
(* versions], versions, names, folders, most calculations, depth.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ver, calcs, files, loaded, hist
vars == <<ci, ver, calcs, files, loaded, hist>>
C == Cases[ci]
LastOp == IF hist = <<>> THEN "none" ELSE hist[Len(hist)].op
Places == (1..C.folders) \X (1..C.names)

Init == ci \in 1..Len(Cases) /\ ver = 1 /\ calcs = <<>> /\ loaded = <<>> /\ hist = <<>> /\ files = [x \in Places |-> 0]
Do(op, i, p, v, f, nm, tok) ==
  /\ hist' = Append(hist, [op |-> op, i |-> i, p |-> p, v |-> v, f |-> f, nm |-> nm, tok |-> tok])
  /\ UNCHANGED ci
  /\ IF op = "load" /\ Len(hist') = C.depth THEN PrintT(ToJson([ci |-> ci, hist |-> hist'])) ELSE TRUE

New(p, nm) ==
  /\ Len(calcs) < C.most
  /\ calcs' = Append(calcs, [p |-> p, mv |-> ver, nm |-> nm])
  /\ UNCHANGED <<ver, files, loaded>>
  /\ Do("new", Len(calcs) + 1, p, ver, 0, nm, 0)
\* solving and saving; segmented calculations are modelled now
Save(i, f) ==
  LET p == calcs[i].p
      v == IF C.kinds[p].k = "seg" THEN ver ELSE calcs[i].mv
      n == Len(hist) + 1
      good == C.kinds[p].ok[v] = 1 IN
    /\ calcs' = [calcs EXCEPT ![i].mv = v]
    /\ files' = IF good THEN [files EXCEPT ![<<f, calcs[i].nm>>] = n] ELSE files
    /\ UNCHANGED <<ver, loaded>>
    /\ Do("save", i, p, v, f, calcs[i].nm, IF good THEN n ELSE 0)
Load(f, nm) ==
  /\ IF LastOp = "load" THEN hist[Len(hist)].f # f \/ hist[Len(hist)].nm # nm ELSE TRUE
  /\ loaded' = Append(loaded, files[<<f, nm>>])
  /\ UNCHANGED <<ver, calcs, files>>
  /\ Do("load", 0, 0, 0, f, nm, files[<<f, nm>>])
Edit(v) ==
  /\ v # ver /\ calcs # <<>> /\ LastOp # "edit"
  /\ ver' = v
  /\ UNCHANGED <<calcs, files, loaded>>
  /\ Do("edit", 0, 0, v, 0, 0, 0)

Next ==
  /\ Len(hist) < C.depth
  /\ \/ \E p \in DOMAIN C.kinds, nm \in 1..C.names : New(p, nm)
     \/ \E i \in DOMAIN calcs, f \in 1..C.folders : Save(i, f)
     \/ \E x \in Places : Load(x[1], x[2])
     \/ \E v \in 1..C.versions : Edit(v)
Spec == Init /\ [][Next]_vars

(* the property *)
\* a file shows the latest successful save to its place
Latest == \A x \in Places :
  LET S == {n \in DOMAIN hist : hist[n].op = "save" /\ hist[n].f = x[1] /\ hist[n].nm = x[2] /\ hist[n].tok # 0} IN
    files[x] = IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
LoadedStay == [][\A n \in DOMAIN loaded : loaded'[n] = loaded[n]]_vars
OnlySavingWrites == [][files' # files => hist'[Len(hist')].op = "save" /\ \A x \in Places : files'[x] # files[x] => x = <<hist'[Len(hist')].f, hist'[Len(hist')].nm>>]_vars
=============================================================================
