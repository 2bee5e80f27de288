----------------------------- MODULE DriverTrace ------------------------------
(* Recorded runs of the drivers: a sequence of histories with the events       *)
(*   [ev |-> "call", backend, measure]                                         *)
(*   [ev |-> "set", role, holds]      a slab solver is handed over; holds: the *)
(*                                    matrix it solves with, found by probing  *)
(*   [ev |-> "march", roles, count]   one application (count of equal ones)    *)
(*   [ev |-> "answer", solves, digits] what the iteration returned             *)
(*   [ev |-> "measure", solves, same] vector measured; same: the answer        *)
(*   [ev |-> "return", rhs]           rhs: the right-hand side is unchanged    *)
EXTENDS Driver, Json, IOUtils
Log == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES vh, ve, vopen, vholds, vanswered, vmeasured, vbad
vars == <<vh, ve, vopen, vholds, vanswered, vmeasured, vbad>>
None == [r \in Roles |-> "nothing"]
Init == vh = 1 /\ ve = 1 /\ vopen = FALSE /\ vholds = None /\ vanswered = FALSE /\ vmeasured = FALSE /\ vbad = "none"
Ev == Log[vh].events[ve]
Call == Log[vh].events[CHOOSE i \in 1..ve : Log[vh].events[i].ev = "call" /\ \A k \in (i + 1)..ve : Log[vh].events[k].ev # "call"]
Verdict ==
  CASE Ev.ev = "call" -> IF vopen THEN "a call before the last one returned" ELSE "ok"
    [] Ev.ev = "set" -> IF Ev.holds # MatrixOf(Ev.role) THEN "the " \o Ev.role \o " slab solver holds the wrong matrix: " \o Ev.holds ELSE "ok"
    [] Ev.ev = "march" ->
         IF Len(Ev.roles) # Log[vh].N THEN "not one solve per slab"
         ELSE IF \E n \in 1..Len(Ev.roles) : Ev.roles[n] # RoleOfSlab(n - 1) THEN "a slab is solved by the wrong solver"
         ELSE IF \E n \in 1..Len(Ev.roles) : vholds[Ev.roles[n]] # MatrixOf(Ev.roles[n]) THEN "a slab solver that was not set"
         ELSE "ok"
    [] Ev.ev = "answer" -> IF Ev.solves THEN "ok" ELSE "the answer does not solve the problem"
    [] Ev.ev = "measure" ->
         IF ~Call.measure THEN "measured although not asked for"
         ELSE IF ~Ev.solves THEN "what is measured does not solve the problem"
         ELSE IF vanswered /\ ~Ev.same THEN "what is measured is not the answer"
         ELSE "ok"
    [] Ev.ev = "return" ->
         IF ~Ev.rhs THEN "the right-hand side was modified"
         ELSE IF Call.backend \in Iterative /\ ~vanswered THEN "no answer"
         ELSE IF Call.measure /\ ~vmeasured THEN "nothing was measured"
         ELSE "ok"
    [] OTHER -> "unknown event"
Step == /\ vbad = "none" /\ vh <= Len(Log) /\ ve <= Len(Log[vh].events)
        /\ vbad' = IF Verdict = "ok" THEN "none" ELSE Verdict
        /\ IF Verdict # "ok" THEN UNCHANGED <<vh, ve, vopen, vholds, vanswered, vmeasured>>
           ELSE /\ ve' = ve + 1 /\ vh' = vh
                /\ vopen' = (Ev.ev = "call" \/ (vopen /\ Ev.ev # "return"))
                /\ vholds' = IF Ev.ev = "set" THEN [vholds EXCEPT ![Ev.role] = Ev.holds] ELSE vholds
                /\ vanswered' = IF Ev.ev = "call" THEN FALSE ELSE (vanswered \/ Ev.ev = "answer")
                /\ vmeasured' = IF Ev.ev = "call" THEN FALSE ELSE (vmeasured \/ Ev.ev = "measure")
NextHistory == /\ vbad = "none" /\ vh <= Len(Log) /\ ve = Len(Log[vh].events) + 1
               /\ vbad' = IF vopen THEN "the last call did not return" ELSE "none"
               /\ vh' = vh + 1 /\ ve' = 1 /\ vopen' = FALSE /\ vholds' = None /\ vanswered' = FALSE /\ vmeasured' = FALSE
Next == Step \/ NextHistory
Spec == Init /\ [][Next]_vars
Note == TLCSet(1, [history |-> vh, event |-> ve, bad |-> vbad, accepted |-> vh > Len(Log) /\ vbad = "none"])
ASSUME TLCSet(1, [bad |-> "not started"])
EmitVerdict == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
