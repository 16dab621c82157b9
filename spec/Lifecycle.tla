------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Calculations of one flow system, one after the other and interleaved     *)
(* (property C20).                                                          *)
(*                                                                          *)
(* The user defines a system, changes the definition (version 1, 2, ...),   *)
(* creates calculations, models, solves, saves and re-solves them and reads *)
(* their results.  A case lists kinds of calculations [k: "full" (modelled  *)
(* and solved separately) or "seg" (both at once), ok: seq over versions,   *)
(* 1 iff a calculation of this kind of a fresh system of that version has a *)
(* solution], the number of versions, the most calculations and the depth.  *)
(*                                                                          *)
(*   state  ver    the version the system is in                             *)
(*          calcs  seq of [p, mv, st, tok]: kind, version at modelling,     *)
(*                 stage, and what its results show                         *)
(*          seen   results obtained so far (they must stay what they are)   *)
(*          hist   the operations, with what each has to show               *)
(*                                                                          *)
(* The outcome of a calculation is a function of its kind and the version   *)
(* of the definition it was modelled with (token p * 10 + v; 0: an error).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ver, calcs, seen, hist
vars == <<ci, ver, calcs, seen, hist>>
C == Cases[ci]

Outcome(p, v) == IF C.kinds[p].ok[v] = 1 THEN p * 10 + v ELSE 0
Kind(i) == C.kinds[calcs[i].p].k
LastOp == IF hist = <<>> THEN "none" ELSE hist[Len(hist)].op

Emit == IF Len(hist') = C.depth THEN PrintT(ToJson([ci |-> ci, hist |-> hist'])) ELSE TRUE
Do(op, i, p, v, tok) == hist' = Append(hist, [op |-> op, i |-> i, p |-> p, v |-> v, tok |-> tok]) /\ Emit /\ UNCHANGED ci

Init == ci \in 1..Len(Cases) /\ ver = 1 /\ calcs = <<>> /\ seen = <<>> /\ hist = <<>>

\* creating a calculation and modelling it
Start(p) ==
  /\ Len(calcs) < C.most /\ C.kinds[p].k = "full"
  /\ calcs' = Append(calcs, [p |-> p, mv |-> ver, st |-> "modelled", tok |-> 0])
  /\ UNCHANGED <<ver, seen>>
  /\ Do("start", Len(calcs) + 1, p, ver, 0)
\* modelling it again
Remodel(i) ==
  /\ Kind(i) = "full" /\ (calcs[i].mv # ver \/ calcs[i].st # "modelled")
  /\ calcs' = [calcs EXCEPT ![i].mv = ver, ![i].st = "modelled"]
  /\ UNCHANGED <<ver, seen>>
  /\ Do("model", i, calcs[i].p, ver, 0)
Solve(i, op) ==
  /\ Kind(i) = "full"
  /\ LET o == Outcome(calcs[i].p, calcs[i].mv) IN
       /\ calcs' = [calcs EXCEPT ![i].st = IF o = 0 THEN "failed" ELSE "solved", ![i].tok = o]
       /\ UNCHANGED <<ver, seen>>
       /\ Do(op, i, calcs[i].p, calcs[i].mv, o)
\* modelling and solving in one go, segment by segment
Run(p) ==
  /\ Len(calcs) < C.most /\ C.kinds[p].k = "seg"
  /\ LET o == Outcome(p, ver) IN
       /\ calcs' = Append(calcs, [p |-> p, mv |-> ver, st |-> IF o = 0 THEN "failed" ELSE "solved", tok |-> o])
       /\ UNCHANGED <<ver, seen>>
       /\ Do("run", Len(calcs) + 1, p, ver, o)
Rerun(i) ==
  /\ Kind(i) = "seg"
  /\ LET o == Outcome(calcs[i].p, ver) IN
       /\ calcs' = [calcs EXCEPT ![i].mv = ver, ![i].st = IF o = 0 THEN "failed" ELSE "solved", ![i].tok = o]
       /\ UNCHANGED <<ver, seen>>
       /\ Do("rerun", i, calcs[i].p, ver, o)
\* looking at the results
Read(i) ==
  /\ calcs[i].st = "solved" /\ LastOp # "read"
  /\ seen' = Append(seen, <<i, calcs[i].tok>>)
  /\ UNCHANGED <<ver, calcs>>
  /\ Do("read", i, calcs[i].p, calcs[i].mv, calcs[i].tok)
\* the user changes the definition
Edit(v) ==
  /\ v # ver /\ calcs # <<>> /\ LastOp # "edit"
  /\ ver' = v
  /\ UNCHANGED <<calcs, seen>>
  /\ Do("edit", 0, 0, v, 0)
\* printing, exporting the system: changes nothing
Inspect ==
  /\ calcs # <<>> /\ LastOp \notin {"inspect", "read"}
  /\ UNCHANGED <<ver, calcs, seen>>
  /\ Do("inspect", 0, 0, ver, 0)

Next ==
  /\ Len(hist) < C.depth
  /\ \/ \E p \in DOMAIN C.kinds : Start(p) \/ Run(p)
     \/ \E i \in DOMAIN calcs : Remodel(i) \/ Solve(i, "solve") \/ Solve(i, "save") \/ Rerun(i) \/ Read(i)
     \/ \E v \in 1..C.versions : Edit(v)
     \/ C.inspect = 1 /\ Inspect
Spec == Init /\ [][Next]_vars

(* the property *)
\* what a calculation shows is decided by its kind and the definition it was modelled with
OnlyOwnInputs == \A i \in DOMAIN calcs : calcs[i].st = "solved" => calcs[i].tok = Outcome(calcs[i].p, calcs[i].mv)
Repeatable == \A i, j \in DOMAIN hist :
  hist[i].op \in {"solve", "save", "run", "rerun"} /\ hist[j].op \in {"solve", "save", "run", "rerun"}
    /\ hist[i].p = hist[j].p /\ hist[i].v = hist[j].v => hist[i].tok = hist[j].tok
\* an operation on one calculation does not touch another one
Untouched == [][\A i \in DOMAIN calcs : calcs'[i] # calcs[i] => hist'[Len(hist')].i = i]_vars
ResultsStay == [][\A n \in DOMAIN seen : seen'[n] = seen[n]]_vars
=============================================================================
