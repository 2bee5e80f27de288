------------------------------ MODULE MarchTrace ------------------------------
(* Recorded runs of the marching: a sequence of histories, each with the       *)
(* number of slabs and its events                                              *)
(*   [ev |-> "call", kind, set]                                                *)
(*   [ev |-> "solve", solver, set, start, rest]  start, rest: lists of <<token, *)
(*                                               coefficient>>, or "unknown"   *)
(*   [ev |-> "return", x, b]  x: per slab a token list; b: right-hand side kept *)
(* One step accepts one event.  The run is accepted if every event is.         *)
EXTENDS Marching, Json, IOUtils
Log == TLCEval(JsonDeserialize(IOEnv.TRACE))

VARIABLES vh, ve, vcall, vslab, vopen, vbad
vars == <<vh, ve, vcall, vslab, vopen, vbad>>

\* tokens come in a fixed order
BagOf(list) == [t \in {list[i][1] : i \in 1..Len(list)} |->
                  LET i == CHOOSE i \in 1..Len(list) : list[i][1] = t IN list[i][2]]
Init == vh = 1 /\ ve = 1 /\ vcall = 0 /\ vslab = 0 /\ vopen = FALSE /\ vbad = "none"

Ev == Log[vh].events[ve]
Slabs == Log[vh].N
Call == Log[vh].events[CHOOSE i \in 1..(ve - 1) :
           Log[vh].events[i].ev = "call" /\ \A k \in (i + 1)..(ve - 1) : Log[vh].events[k].ev # "call"]
Verdict ==
  CASE Ev.ev = "call" -> IF vopen THEN "call before the last one returned" ELSE "ok"
    [] Ev.ev = "solve" ->
         IF ~vopen \/ vslab >= Slabs THEN "more slab solves than slabs"
         ELSE IF Call.kind = "apply" THEN "the operator solves a slab problem"
         ELSE IF Ev.solver # WantSolver(vslab) THEN "wrong slab solver"
         ELSE IF Ev.set # Call.set THEN "a slab solver that was replaced"
         ELSE IF BagOf(Ev.rest) # WantRest(vcall, vslab) THEN "right-hand side of the slab solver"
         ELSE IF BagOf(Ev.start) # WantStart(vcall, vslab) THEN "right-hand side of the slab solver at the start of the slab"
         ELSE "ok"
    [] Ev.ev = "return" ->
         IF Call.kind # "apply" /\ vslab # Slabs THEN "fewer slab solves than slabs"
         ELSE IF ~Ev.b THEN "the right-hand side was modified"
         ELSE IF Call.kind # "apply" /\ \E n \in 1..Slabs : BagOf(Ev.x[n]) # X(vcall, n - 1) THEN "solution vector"
         ELSE "ok"
    [] OTHER -> "unknown event"

Step == /\ vbad = "none" /\ vh <= Len(Log) /\ ve <= Len(Log[vh].events)
        /\ vbad' = IF Verdict = "ok" THEN "none" ELSE Verdict
        /\ IF Verdict # "ok" THEN UNCHANGED <<vh, ve, vcall, vslab, vopen>>
           ELSE /\ ve' = ve + 1 /\ vh' = vh
                /\ vcall' = IF Ev.ev = "call" THEN vcall + 1 ELSE vcall
                /\ vslab' = IF Ev.ev = "call" THEN 0 ELSE IF Ev.ev = "solve" THEN vslab + 1 ELSE vslab
                /\ vopen' = (Ev.ev # "return")
NextHistory == /\ vbad = "none" /\ vh <= Len(Log) /\ ve = Len(Log[vh].events) + 1
               /\ vbad' = IF vopen THEN "the last call did not return" ELSE "none"
               /\ vh' = vh + 1 /\ ve' = 1 /\ vcall' = 0 /\ vslab' = 0 /\ vopen' = FALSE
Next == Step \/ NextHistory
Spec == Init /\ [][Next]_vars
Note == TLCSet(1, [history |-> vh, event |-> ve, bad |-> vbad, accepted |-> vh > Len(Log) /\ vbad = "none"])
ASSUME TLCSet(1, [bad |-> "not started"])
EmitVerdict == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
