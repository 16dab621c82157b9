------------------------------- MODULE Optimum -------------------------------
(***************************************************************************)
(* Cases whose candidate moves are *all* steps there are (every flow is     *)
(* either fixed, on at one rate or off, or follows from the others): the    *)
(* exploration is exhaustive, hence decides whether a schedule exists at    *)
(* all and what the cheapest one costs.                                     *)
(*                                                                          *)
(* Every legal schedule is printed with its cost; every behaviour for which *)
(* nothing is claimed (only AMBIG) is printed as well: cases with such a    *)
(* behaviour have no certain answer.                                        *)
(***************************************************************************)
EXTENDS Explore

Unclear(b) == IF b = {"AMBIG"} THEN Emit([k |-> "A", ci |-> ci]) ELSE TRUE

BeginO ==
  /\ ph = "new"
  /\ LET b == InitBad(Case, Sz, C0) IN
     IF b = {} THEN ph' = "run" ELSE ph' = "rejected" /\ Unclear(b)
  /\ UNCHANGED <<ci, si, c0i, st, tr, tot>>

StepO(m) ==
  LET t  == Len(tr) + 1
      x  == Case.moves[t][m]
      of == FlowOn(Case, x)
      oi == ItemOn(Case, of)
      r  == StepEval(Case, Sz, st, t, x, of, oi, ExIn(Case, x), ExOut(Case, x))
  IN /\ tr' = Append(tr, m)
     /\ IF r.bad = {}
        THEN ph' = "run" /\ st' = r.st /\ tot' = Append(tot, r.opt)
        ELSE ph' = "rejected" /\ UNCHANGED <<st, tot>> /\ Unclear(r.bad)
     /\ UNCHANGED <<ci, si, c0i>>

FinishO ==
  /\ ph = "run" /\ Len(tr) = Case.T
  /\ LET b == FinalBad(Case, Sz, C0, st) IN
     IF b = {}
     THEN /\ ph' = "done"
          /\ Emit([k |-> "L", ci |-> ci, s |-> si, c |-> c0i, m |-> tr, op |-> st.op, iv |-> InvTotals(Case, Sz), opt |-> tot,
                   obj |-> st.op[Case.obj] + InvTotals(Case, Sz)[Case.obj], pen |-> st.pen])
     ELSE ph' = "rejected" /\ Unclear(b)
  /\ UNCHANGED <<ci, si, c0i, st, tr, tot>>

NextO == BeginO
         \/ (ph = "run" /\ Len(tr) < Case.T /\ \E m \in 1..Len(Case.moves[Len(tr) + 1]) : StepO(m))
         \/ FinishO
SpecO == Init /\ [][NextO]_vars
==============================================================================
